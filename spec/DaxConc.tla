------------------------------ MODULE DaxConc ------------------------------
(* Decides histories of calls that overlapped: several clients, and several  *)
(* threads of one client, at the same time.  A history is a sequence of      *)
(* blocks [th, evs]; th are the sequences of calls each caller made, with    *)
(* the times inv and rsp at which a call began and returned; evs are the     *)
(* notifications that had come by the end of the block, per client one list  *)
(* for every thread that took some.  The history is accepted iff the calls   *)
(* of every block can be put into one order, consistent with the times, in   *)
(* which they are a behaviour of Dax: iff some branch gets to the end.       *)
EXTENDS DaxTrace

VARIABLES pos, ev
cvars == <<t, i, s, verdict, pos, ev>>

FifoSize == 8       \* notifications the library keeps for a client that doesn't take them

Blocks == Traces[t].blocks
Start(k) == IF k > Len(Blocks) THEN << >> ELSE [j \in DOMAIN Blocks[k].th |-> 1]

(* the call may be the next one: no other one that is left had returned before it began *)
Ready(b, k) == LET st == b.th[k][pos[k]] IN
    {j \in DOMAIN b.th : IF j = k \/ pos[j] > Len(b.th[j]) THEN FALSE ELSE b.th[j][pos[j]].rsp < st.inv} = {}

Answered(st, r, s1) ==
    IF st.lost THEN TRUE        \* the caller gave up waiting for the answer
    ELSE IF st.ok THEN r.ok /\ AnswerOk(st, r, s1)
    ELSE ~r.ok /\ r.v \in {"", "EMPTY"} /\ ((r.v = "EMPTY") <=> (st.e = -20))

(* a sequence of notifications that arrived in one thread or was shared out among several *)
RECURSIVE Shuffled(_, _)
Shuffled(want, lists) ==
    IF want = << >> THEN \A k \in DOMAIN lists : lists[k] = << >>
    ELSE \E k \in DOMAIN lists :
           /\ lists[k] # << >>
           /\ SameNotice(want[1], lists[k][1])
           /\ Shuffled(Tail(want), [lists EXCEPT ![k] = Tail(@)])

RECURSIVE Flatten(_)
Flatten(g) == IF g = << >> THEN << >> ELSE g[1] \o Flatten(Tail(g))
(* the notifications of c: in the end those of one operation may come in any order; here all have one *)
Sent(c) == SelectSeq(Flatten(ev), LAMBDA x : x.c = c)
LastOf(q, n) == IF Len(q) > n THEN SubSeq(q, Len(q) - n + 1, Len(q)) ELSE q
EvOk(b) ==
    LET cs == {b.evs[k].c : k \in DOMAIN b.evs} \cup {x.c : x \in Range1(Flatten(ev))}
        got(c) == LET f == SelectSeq(b.evs, LAMBDA x : x.c = c) IN IF f = << >> THEN <<<< >>>> ELSE f[1].l
        held(c) == LET f == SelectSeq(b.evs, LAMBDA x : x.c = c) IN f # << >> /\ f[1].held
    IN \A c \in cs : Shuffled(IF held(c) THEN LastOf(Sent(c), FifoSize) ELSE Sent(c), got(c))

CInit == t \in 1..Len(Traces) /\ i = 1 /\ s = Fresh /\ verdict = "running" /\ pos = Start(1) /\ ev = << >>

CNext ==
    /\ verdict = "running"
    /\ t' = t
    /\ IF i > Len(Blocks)
       THEN /\ verdict' = "accepted" /\ UNCHANGED <<i, s, pos, ev>>
            /\ PrintT("ACCEPTED " \o ToString(t))
       ELSE LET b == Blocks[i] IN
            IF \A k \in DOMAIN b.th : pos[k] > Len(b.th[k])
            THEN IF EvOk(b)
                 THEN /\ i' = i + 1 /\ pos' = Start(i + 1) /\ ev' = << >> /\ UNCHANGED <<s, verdict>>
                      /\ PrintT("REACHED " \o ToString(t) \o " " \o ToString(i))
                 ELSE /\ verdict' = "stuck" /\ UNCHANGED <<i, s, pos, ev>>
                      /\ IF "VERBOSE" \notin DOMAIN IOEnv THEN TRUE ELSE (PrintT("NOTICES " \o ToString(t) \o " " \o ToString(i) \o " " \o ToJson(ev)))
            ELSE \E k \in DOMAIN b.th :
                 /\ pos[k] <= Len(b.th[k])
                 /\ Ready(b, k)
                 /\ LET st == b.th[k][pos[k]]
                        r == IF st.op = "noanswer" THEN Refused(s) ELSE LHandle(s, st.c, st.op, st.a, st.o)
                        ok == st.op # "noanswer" /\ Answered(st, r, r.s)
                    IN IF ok THEN /\ s' = Learn(r.s, st)
                                  /\ pos' = [pos EXCEPT ![k] = @ + 1]
                                  /\ ev' = IF r.g = << >> THEN ev ELSE ev \o r.g
                                  /\ UNCHANGED <<i, verdict>>
                       ELSE /\ verdict' = "stuck" /\ UNCHANGED <<i, s, pos, ev>>
                            /\ IF "VERBOSE" \notin DOMAIN IOEnv THEN TRUE ELSE (PrintT("STUCK " \o ToString(t) \o " " \o ToString(i) \o " " \o ToJson([pos |-> pos, k |-> k, ok |-> r.ok, v |-> r.v])))

CSpec == CInit /\ [][CNext]_cvars
=============================================================================
