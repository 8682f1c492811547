------------------------------ MODULE DaxTrace ------------------------------
(* Decides traces recorded from the real tag server.  Every line of the file *)
(* named by TRACES is one trace: [id, steps].  Every step says what was      *)
(* asked (c, op, a), what was answered (ok, e, v), which choices the server  *)
(* made (o) and which notifications had arrived at which client by then (n). *)
(* A trace is accepted iff it is a behaviour of Dax: iff some branch gets to *)
(* its end.                                                                  *)
EXTENDS DaxLua, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, i, s, verdict
vars == <<t, i, s, verdict>>
(* where no step leaves its outcome open there is one state per step, and    *)
(* there's no need to look at the rest of it                                 *)
Branching == TLCEval([k \in 1..Len(Traces) |-> \E j \in DOMAIN Traces[k].steps : Traces[k].steps[j].op = "vanish"])
View == <<t, i, verdict, IF Branching[t] THEN s ELSE 0>>

----------------------------------------------------------------------------
(* bytes agree where the specification says something *)
SameBytes(want, got) == /\ Len(want) = Len(got)
                        /\ \A k \in DOMAIN want : want[k] = -1 \/ want[k] = got[k]

SameNotice(want, got) == /\ want.idx = got.idx /\ want.id = got.id /\ want.et = got.et
                         /\ SameBytes(want.data, got.data)
Without(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
RECURSIVE SameBag(_, _)
SameBag(want, got) ==
    IF want = << >> THEN got = << >>
    ELSE LET m == {k \in DOMAIN got : SameNotice(want[1], got[k])}
         IN m # {} /\ SameBag(Tail(want), Without(got, CHOOSE k \in m : TRUE))
RECURSIVE SameBags(_, _)
SameBags(bags, got) ==
    IF bags = << >> THEN got = << >>
    ELSE LET n == Len(bags[1]) IN
         /\ n <= Len(got)
         /\ SameBag(bags[1], SubSeq(got, 1, n))
         /\ SameBags(Tail(bags), SubSeq(got, n + 1, Len(got)))

(* the notifications of client c *)
Wanted(g, c) == LET f == [k \in DOMAIN g |-> SelectSeq(g[k], LAMBDA x : x.c = c)]
                IN SelectSeq(f, LAMBDA x : x # << >>)
GotBy(n, c) == LET f == SelectSeq(n, LAMBDA x : x.c = c) IN IF f = << >> THEN << >> ELSE f[1].l
NoticesOk(g, n) ==
    LET cs == {n[k].c : k \in DOMAIN n} \cup UNION {{g[k][j].c : j \in DOMAIN g[k]} : k \in DOMAIN g}
    IN \A c \in cs \ {"deaf"} :       \* a client of this name is one that doesn't read what it's sent
         SameBags(Wanted(g, c), GotBy(n, c))

----------------------------------------------------------------------------
Le4(b) == b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * (b[4] % 128)

AnswerOk(st, r, s1) ==
    IF st.op \in {"read", "grpread", "ovrget", "lread", "tread"} THEN
        /\ SameBytes(r.v, st.v)
        /\ (st.op = "read" /\ st.a.idx = DbSizeIdx /\ st.a.off = 0 /\ st.a.size = 4) => Le4(st.v) > MaxIdx(s1)
    ELSE IF st.op \in {"write", "mwrite", "evdel", "evopt", "mapdel", "grpdel", "grpwrite", "atomic", "ovradd", "ovrdel",
                       "ovrset", "connect", "disconnect", "register", "nop", "del", "lwrite", "lmwrite", "twrite", "tmask", "lovradd",
                       "lovrdel", "latomic", "ldel", "ldisconnect"} THEN TRUE
    ELSE IF st.op = "uread" THEN SameVal(r.v, st.v)
    ELSE IF st.op \in {"uwrite", "uatomic", "uovradd", "uovrdel", "uovrset", "ubad"} THEN TRUE
    ELSE IF st.op = "v2s" THEN ValueText(st.a, st.v)
    ELSE IF st.op = "s2v" THEN TextValue(st.a, st.v)
    ELSE r.v = st.v

(* A step of the trace is a step of the specification *)
Matches(st, r, s1) ==
    IF st.ok THEN r.ok /\ AnswerOk(st, r, s1) /\ NoticesOk(r.g, st.n)
    ELSE ~r.ok /\ r.v \in {"", "EMPTY"} /\ ((r.v = "EMPTY") <=> (st.e = -20)) /\ NoticesOk(r.g, st.n)

(* Bytes the specification leaves open are fixed once they were seen *)
Learn(s1, st) ==
    IF /\ st.op = "read" /\ st.ok
       /\ st.a.idx \in {AddedIdx, DeletedIdx, StartedIdx}
       /\ st.a.off = 0 /\ Len(st.v) = Len(s1.tags[st.a.idx].data)
    THEN [s1 EXCEPT !.tags[st.a.idx].data = st.v] ELSE s1

(* The server ended and was started again in the same directory: what it is  *)
(* expected to have kept, and what it has (o).                               *)
UserTags(x) == {k \in LiveSet(x) : k > 10 /\ ~x.tags[k].sp}
RECURSIVE SameType(_, _, _, _)
SameType(x, a, y, b) ==     \* type a of state x and type b of state y have the same meaning
    /\ a.q = b.q
    /\ IF a.b # "CDT" THEN a.b = b.b
       ELSE /\ b.b = "CDT" /\ a.n \in DOMAIN x.types /\ b.n \in DOMAIN y.types
            /\ LET ta == x.types[a.n]  tb == y.types[b.n] IN
               /\ ta.name = tb.name /\ Len(ta.members) = Len(tb.members)
               /\ \A k \in DOMAIN ta.members :
                    /\ ta.members[k].name = tb.members[k].name /\ ta.members[k].count = tb.members[k].count
                    /\ SameType(x, ta.members[k].t, y, tb.members[k].t)
LowName(st, nm) == nm
Restarted(o) ==      \* the state described by the observation after the restart
    LET ty == [k \in {o.types[j].n : j \in DOMAIN o.types} |->
                 LET d == CHOOSE x \in Range1(o.types) : x.n = k
                 IN [name |-> d.name, low |-> d.low, members |-> d.members]]
        base == [Fresh EXCEPT !.types = SysTypes @@ ty]
        tg == [k \in {o.tags[j].idx : j \in DOMAIN o.tags} |->
                 LET d == CHOOSE x \in Range1(o.tags) : x.idx = k
                 IN [NewTag(base, d.name, d.chars, d.t, 1, NoClient, "data") EXCEPT !.count = d.count, !.data = d.data, !.ret = d.ret,
                      !.ro = d.ro, !.own = d.own]]
        all == base.tags @@ tg
    IN [base EXCEPT !.top = Max(DOMAIN all), !.cnt = Cardinality(DOMAIN all), !.tags = [all EXCEPT ![TagCountIdx].data = IntBytes(Cardinality(DOMAIN all), 4),
                                         ![LastIndexIdx].data = IntBytes(Max(DOMAIN all), 4)]]
KeptOk(x, y) ==
    LET want == {k \in UserTags(x) : x.tags[k].ret}
        got == {k \in DOMAIN y.tags : k > 10}
    IN /\ {x.tags[k].name : k \in want} = {y.tags[k].name : k \in got}
       /\ Cardinality(want) = Cardinality(got)
       /\ \A k \in want : \E j \in got :
            /\ x.tags[k].name = y.tags[j].name /\ x.tags[k].count = y.tags[j].count
            /\ SameType(x, x.tags[k].t, y, y.tags[j].t)
            /\ x.tags[k].data = y.tags[j].data
            /\ y.tags[j].ret /\ ~y.tags[j].ro /\ ~y.tags[j].own

(* states the server may have been in when it ended: some of the requests   *)
(* that were sent but not answered may have been carried out, in order       *)
RECURSIVE Unanswered(_, _)
Unanswered(x, ops) ==
    {x} \cup IF ops = << >> THEN {}
             ELSE LET p == ops[1]
                      r == Handle(x, p.c, p.op, p.a, IF p.op = "add" THEN MaxIdx(x) + 1 ELSE
                                                     IF p.op = "cdtnew" THEN Cdt(Max(DOMAIN x.types) + 1) ELSE 0)
                  IN Unanswered(r.s, Tail(ops))

(* A client sent several requests and was gone before it read the answers:   *)
(* the first k of them were carried out.                                     *)
RECURSIVE Blindly(_, _, _)
Blindly(x, ops, g) ==
    {<<x, g>>} \cup
    IF ops = << >> THEN {}
    ELSE LET p == ops[1]
             r == Handle(x, p.c, p.op, p.a, IF p.op = "add" THEN MaxIdx(x) + 1 ELSE 0)
         IN Blindly(r.s, Tail(ops), g \o r.g)
Outcomes(x, st) == IF st.op = "vanish" THEN Blindly(x, st.a.pending, << >>) ELSE {<< >>}

StepOk(st, x, choice) ==     \* <<accepted?, new state, what was expected>>
    IF st.op = "restart" THEN
        LET y == Restarted(st.o)
            ok == /\ st.o.extra = 0
                  /\ \E z \in Unanswered(x, st.a.pending) : KeptOk(z, y)
        IN <<ok, y, IF ok THEN << >> ELSE <<"kept", {[name |-> x.tags[k].name, count |-> x.tags[k].count, data |-> x.tags[k].data] : k \in {k \in UserTags(x) : x.tags[k].ret}}>>>>
    ELSE IF st.op = "vanish" THEN
        LET d == Disconnect(choice[1], st.c)
            all == choice[2] \o d.g
            ok == NoticesOk([k \in DOMAIN all |-> SelectSeq(all[k], LAMBDA z : z.c # st.c)], st.n)    \* its own are lost with it
        IN <<ok, IF ok THEN d.s ELSE x, IF ok THEN << >> ELSE [g |-> choice[2] \o d.g]>>
    ELSE IF st.op = "noanswer" THEN <<FALSE, x, "an answer">>
    ELSE LET r == UHandle(x, st.c, st.op, st.a, st.o)
             ok == Matches(st, r, r.s)
         IN <<ok, IF ok THEN Learn(r.s, st) ELSE x, IF ok THEN << >> ELSE [ok |-> r.ok, v |-> r.v, g |-> r.g]>>

----------------------------------------------------------------------------
Init == t \in 1..Len(Traces) /\ i = 1 /\ s = Fresh /\ verdict = "running"

Next ==
    /\ verdict = "running"
    /\ t' = t
    /\ IF i > Len(Traces[t].steps)
       THEN /\ verdict' = "accepted" /\ UNCHANGED <<i, s>>
            /\ PrintT("ACCEPTED " \o ToString(t))
       ELSE LET st == Traces[t].steps[i]
            IN \E ch \in Outcomes(s, st) :
               LET k == StepOk(st, s, ch) IN
               /\ IF k[1] THEN i' = i + 1 /\ s' = k[2] /\ verdict' = verdict
                  ELSE /\ verdict' = "rejected" /\ UNCHANGED <<i, s>>
                       /\ PrintT("REJECTED " \o ToString(t) \o " " \o ToString(i) \o " " \o ToJson(k[3]))

Spec == Init /\ [][Next]_vars
=============================================================================
