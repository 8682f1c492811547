------------------------------- MODULE DaxLib -------------------------------
(* The client library: what its calls do to the server's state and what they *)
(* return.  A library client is a client of the server that remembers tag    *)
(* definitions it was told.  s.kn[c] is the set of definitions c may still   *)
(* remember: a lookup may be answered from it, and anything else must be the *)
(* truth.  Handles are the records of Dax: [idx, byte, bit, count, size, t]. *)
EXTENDS DaxText

Kn(s, c) == IF c \in DOMAIN s.kn THEN s.kn[c] ELSE {}
SetKn(s, c, x) == [s EXCEPT !.kn = (c :> x) @@ @]
ForgetIdx(s, c, idx) == IF \E d \in Kn(s, c) : d.idx = idx
                        THEN SetKn(s, c, {d \in Kn(s, c) : d.idx # idx}) ELSE s
ForgetName(s, c, name) == IF \E d \in Kn(s, c) : d.name = name
                          THEN SetKn(s, c, {d \in Kn(s, c) : d.name # name}) ELSE s
(* c has just been told the definitions ds of one tag *)
Remember(s, c, ds) ==
    SetKn(s, c, ds \cup {d \in Kn(s, c) : \A e \in ds : e.idx # d.idx /\ e.name # d.name})

Current(s, name) == {TagInfo(s, i) : i \in ByName(s, name)}
CurrentIdx(s, idx) == IF Live(s, idx) THEN {TagInfo(s, idx)} ELSE {}

(* lookups; obs is what the library answered *)
LByName(s, c, a, obs) ==
    LET cur == Current(s, a.name)
        old == {d \in Kn(s, c) : d.name = a.name}
    IN IF obs \in cur \cup old THEN Done(Remember(s, c, {obs}), obs, << >>)
       ELSE IF cur = {} THEN Refused(s)
       ELSE Done(s, CHOOSE d \in cur : TRUE, << >>)
LByIndex(s, c, a, obs) ==
    LET cur == CurrentIdx(s, a.idx)
        old == {d \in Kn(s, c) : d.idx = a.idx}
    IN IF obs \in cur \cup old THEN Done(Remember(s, c, {obs}), obs, << >>)
       ELSE IF cur = {} THEN Refused(s)
       ELSE Done(s, CHOOSE d \in cur : TRUE, << >>)

----------------------------------------------------------------------------
(* Addresses: [name, sub, path, bit, count]: tag[sub].member[sub]....bit, -1 *)
(* where there is no subscript or bit; count elements, 0: as many as named.  *)
Part(idx, t, pos, n, z) ==     \* n elements of type t at bit position pos, z bytes each
    IF t.b = "BOOL"
    THEN [idx |-> idx, byte |-> pos \div 8, bit |-> pos % 8, count |-> n, size |-> BoolBytes(pos % 8, n), t |-> t]
    ELSE [idx |-> idx, byte |-> pos \div 8, bit |-> 0, count |-> n, size |-> n * z, t |-> t]
NoBits == {"BOOL", "TIME", "REAL", "LREAL", "CDT"}
RECURSIVE Walk(_, _, _, _, _, _, _, _, _, _)
(* count elements of type t at bit position pos, of which element sub is named (or all);    *)
(* {} or {handle}                                                                            *)
Walk(s, idx, t, count, pos, sub, path, bit, want, top) ==
    LET z == IF t.b = "BOOL" THEN 0 ELSE TypeSize(s, t)
        first == MaxI(sub, 0)
    IN IF sub >= count THEN {}
       ELSE IF path # << >> THEN
         IF t.b # "CDT" \/ (top /\ count > 1 /\ sub < 0) THEN {}
         ELSE LET ms == s.types[t.n].members
                  k == {j \in DOMAIN ms : ms[j].name = path[1].m}
              IN IF k = {} THEN {}
                 ELSE LET j == CHOOSE j \in k : TRUE
                      IN Walk(s, idx, ms[j].t, ms[j].count, pos + 8 * z * first + MemberPos(s, ms, j),
                              path[1].i, Tail(path), bit, want, FALSE)
       ELSE IF bit >= 0 THEN
         IF t.b \in NoBits \/ (count > 1 /\ sub < 0) \/ bit >= 8 * z THEN {}
         ELSE LET n == IF want = 0 THEN 1 ELSE want
              IN IF n > 8 * z - bit THEN {} ELSE {Part(idx, Base("BOOL"), pos + 8 * z * first + bit, n, 0)}
       ELSE LET n == IF want # 0 THEN want ELSE IF sub >= 0 THEN 1 ELSE count
            IN IF n > count - first THEN {}
               ELSE {Part(idx, t, pos + (IF t.b = "BOOL" THEN first ELSE 8 * z * first), n, z)}

Resolve(s, d, a) ==
    IF a.count < 0 \/ ~TypeKnown(s, d.t) THEN {}
    ELSE Walk(s, d.idx, d.t, d.count, 0, a.sub, a.path, a.bit, a.count, TRUE)

LHandle0(s, c, a, obs) ==
    IF a.bad THEN Refused(LET cur == Current(s, a.name) IN IF cur = {} THEN s ELSE SetKn(s, c, cur \cup Kn(s, c)))
    ELSE LET cur == Current(s, a.name)
             defs == cur \cup {d \in Kn(s, c) : d.name = a.name}
             fit == {d \in defs : obs \in Resolve(s, d, a)}
             told == ForgetName(s, c, a.name)
         IN IF fit # {} THEN Done(IF fit \cap cur = {} THEN s ELSE SetKn(s, c, cur \cup Kn(s, c)), obs, << >>)
            ELSE IF \A d \in cur : Resolve(s, d, a) = {} THEN Refused(IF cur = {} THEN told ELSE Remember(told, c, cur))
            ELSE Done(s, CHOOSE h \in UNION {Resolve(s, d, a) : d \in cur} : TRUE, << >>)

(* The full name of what a handle refers to: an address (already taken apart) that resolves to it *)
LFqn(s, c, a, obs) ==
    LET cur == CurrentIdx(s, a.h.idx)
        defs == cur \cup {d \in Kn(s, c) : d.idx = a.h.idx}
        ok(d) == ~obs.bad /\ obs.name = d.name /\ a.h \in Resolve(s, d, [obs EXCEPT !.count = a.h.count])
        fit == {d \in defs : ok(d)}
    IN IF fit # {} THEN Done(SetKn(s, c, cur \cup Kn(s, c)), obs, << >>)    \* its answer may not show which one it knows
       ELSE IF cur = {} THEN Refused(s)
       ELSE Done(s, [obs EXCEPT !.name = @ \o " is not an address of the handle"], << >>)

----------------------------------------------------------------------------
(* Reading and writing through handles.  Whatever the size, it is one        *)
(* transfer; only single elements that don't fit in a message are refused.   *)
ReadLimit == 4088
WriteLimit == 4080
MaskLimit == 2040
Elem(s, t) == IF t.b = "BOOL" THEN 1 ELSE TypeSize(s, t)
Partial(h) == h.t.b = "BOOL" /\ ~h.t.q /\ (h.bit > 0 \/ h.count % 8 # 0)
Span(h) == MaxI(h.size, (h.bit + h.count - 1) \div 8 + 1)

(* a tag that turns out to be gone is forgotten *)
Gone(s, c, idx, r) == IF ~r.ok /\ ~Live(s, idx) THEN [r EXCEPT !.s = ForgetIdx(r.s, c, idx)] ELSE r

LRead(s, c, a) ==
    LET h == a.h
        type == TypeKnown(s, h.t)
        tag == s.tags[h.idx]
        r == IF h.size <= ReadLimit THEN Read(s, c, [idx |-> h.idx, off |-> h.byte, size |-> h.size])
             ELSE IF ~Live(s, h.idx) \/ tag.kind # "data" \/ ~InRange(s, h.idx, h.byte, h.size) THEN Refused(s)
             ELSE Done(s, Slice(Seen(tag), h.byte, h.size), << >>)
    IN IF ~type \/ (h.size > ReadLimit /\ Elem(s, h.t) > ReadLimit) THEN Refused(s)
       ELSE IF r.ok /\ h.t.b = "BOOL" /\ ~h.t.q
       THEN [r EXCEPT !.v = MoveBits(r.v, h.bit, 0, h.count, h.size)]
       ELSE Gone(s, c, h.idx, r)

LWrite(s, c, a) ==
    LET h == a.h  n == Span(h) IN
    IF ~TypeKnown(s, h.t) THEN Refused(s)
    ELSE IF Partial(h)
    THEN Gone(s, c, h.idx, MaskWrite(s, c, [idx |-> h.idx, off |-> h.byte, data |-> MoveBits(a.data, 0, h.bit, h.count, n),
                                            mask |-> BitMask(h.bit, h.count, n)]))
    ELSE IF h.size > WriteLimit /\ (Elem(s, h.t) > WriteLimit \/ (Live(s, h.idx) /\ IsVirtual(s, h.idx))) THEN Refused(s)
    ELSE Gone(s, c, h.idx, Write(s, c, [idx |-> h.idx, off |-> h.byte, data |-> SubSeq(a.data, 1, h.size)]))

LMask(s, c, a) ==
    LET h == a.h  n == Span(h) IN
    IF ~TypeKnown(s, h.t) THEN Refused(s)
    ELSE IF Partial(h)
    THEN Gone(s, c, h.idx, MaskWrite(s, c, [idx |-> h.idx, off |-> h.byte, data |-> MoveBits(a.data, 0, h.bit, h.count, n),
                                            mask |-> MoveBits(a.mask, 0, h.bit, h.count, n)]))
    ELSE IF h.size > MaskLimit /\ Elem(s, h.t) > MaskLimit THEN Refused(s)
    ELSE Gone(s, c, h.idx, MaskWrite(s, c, [idx |-> h.idx, off |-> h.byte, data |-> SubSeq(a.data, 1, h.size),
                                            mask |-> SubSeq(a.mask, 1, h.size)]))

LOvrAdd(s, c, a) ==
    LET h == a.h  n == Span(h) IN
    IF 2 * (h.size + 1) + 12 > MsgData THEN Refused(s)
    ELSE IF Partial(h)
    THEN OvrAdd(s, c, [idx |-> h.idx, off |-> h.byte, data |-> MoveBits(a.data, 0, h.bit, h.count, n), mask |-> BitMask(h.bit, h.count, n)])
    ELSE OvrAdd(s, c, [idx |-> h.idx, off |-> h.byte, data |-> SubSeq(a.data, 1, h.size), mask |-> [i \in 1..h.size |-> 255]])
LOvrDel(s, c, a) ==
    LET h == a.h IN
    IF h.size + 9 > MsgData THEN Refused(s)
    ELSE IF Partial(h) THEN OvrDel(s, c, [idx |-> h.idx, off |-> h.byte, mask |-> BitMask(h.bit, h.count, Span(h))])
    ELSE OvrDel(s, c, [idx |-> h.idx, off |-> h.byte, mask |-> [i \in 1..h.size |-> 255]])

----------------------------------------------------------------------------
(* Types as the library shows them *)
LIter(s, a) ==
    IF a.t.b # "CDT" \/ a.t.n \notin DOMAIN s.types THEN Refused(s)
    ELSE LET ms == s.types[a.t.n].members IN
         Done(s, TLCEval([k \in 1..Len(ms) |->
            [name |-> ms[k].name, t |-> ms[k].t, count |-> ms[k].count,
             byte |-> MemberPos(s, ms, k) \div 8, bit |-> MemberPos(s, ms, k) % 8]]), << >>)
LIterAll(s) == Done(s, TLCEval([k \in 1..Cardinality(DOMAIN s.types) |-> [name |-> s.types[k - 1].name, t |-> Cdt(k - 1)]]), << >>)
LTypeSize(s, a) == IF ~TypeKnown(s, a.t) THEN Refused(s) ELSE Done(s, Elem(s, a.t), << >>)
LTypeName(s, a) == IF ~TypeKnown(s, a.t) THEN Refused(s) ELSE Done(s, TName(s, a.t), << >>)
LTypeNumber(s, a) == LET r == ResolveType(s, a.low) IN IF r = {} THEN Refused(s) ELSE Done(s, CHOOSE t \in r : TRUE, << >>)

(* the handle that comes with a new tag *)
LAdd(s, c, a, obs) ==
    LET r == TagAdd(s, c, a, obs)
        z == IF a.t.b = "BOOL" THEN (a.count - 1) \div 8 + 1 ELSE TagBytes(s, a.t, a.count)
    IN IF ~r.ok THEN r
       ELSE [r EXCEPT !.v = [idx |-> r.v, byte |-> 0, bit |-> 0, count |-> a.count, size |-> z, t |-> a.t],
                      !.s = ForgetName(ForgetIdx(r.s, c, r.v), c, a.name)]

(* a subscription that is deleted gives its memory back, once *)
LEvDel(s, c, a) == LET r == EvDel(s, c, a) IN [r EXCEPT !.v = IF r.ok THEN 1 ELSE ""]

----------------------------------------------------------------------------
LHandle(s, c, op, a, obs) ==
    CASE op = "ladd" -> LAdd(s, c, a, obs)
      [] op = "lgetn" -> LByName(s, c, a, obs)
      [] op = "lgeti" -> LByIndex(s, c, a, obs)
      [] op = "lhandle" -> LHandle0(s, c, a, obs)
      [] op = "lfqn" -> LFqn(s, c, a, obs)
      [] op = "tread" -> LRead(s, c, a)
      [] op = "twrite" -> LWrite(s, c, a)
      [] op = "tmask" -> LMask(s, c, a)
      [] op = "lovradd" -> LOvrAdd(s, c, a)
      [] op = "lovrdel" -> LOvrDel(s, c, a)
      [] op = "levdel" -> LEvDel(s, c, a)
      [] op = "liter" -> LIter(s, a)
      [] op = "literall" -> LIterAll(s)
      [] op = "ltypesize" -> LTypeSize(s, a)
      [] op = "ltypename" -> LTypeName(s, a)
      [] op = "ltypenumber" -> LTypeNumber(s, a)
      [] op = "v2s" -> Done(s, "the text of the value", << >>)
      [] op = "s2v" -> Done(s, "the value of the text", << >>)
      [] op = "back" -> Done(s, IF a.t.b = "BOOL" THEN <<BitAt(a.buf, a.i)>> ELSE ElemAt(a.t.b, a.buf, a.i), << >>)   \* to text and back
      [] op = "ev2s" -> Done(s, EventName(a.n), << >>)
      [] op = "s2ev" -> Done(s, EventNumber(a.up), << >>)
      \* the same requests as before; the library forgets what it sees is gone
      [] op = "lread" -> Gone(s, c, a.idx, Read(s, c, a))
      [] op = "lwrite" -> IF Len(a.data) > WriteLimit THEN Refused(s) ELSE Gone(s, c, a.idx, Write(s, c, a))
      [] op = "lmwrite" -> IF Len(a.data) > MaskLimit THEN Refused(s) ELSE Gone(s, c, a.idx, MaskWrite(s, c, a))
      [] op = "latomic" -> IF a.h.size + 21 > MsgData \/ a.h.t.b = "CDT" THEN Refused(s) ELSE Gone(s, c, a.h.idx, Atomic(s, c, a))
      [] op = "ldel" -> LET r == TagDel(s, c, a) IN IF r.ok THEN [r EXCEPT !.s = ForgetIdx(r.s, c, a.idx)] ELSE r
      [] op = "ldisconnect" -> LET r == Disconnect(s, c) IN [r EXCEPT !.s = SetKn(r.s, c, {})]
      [] OTHER -> Handle(s, c, op, a, obs)
=============================================================================
