-------------------------------- MODULE Dax --------------------------------
(* The OpenDAX tag server: its whole state and what every request does to it *)
(* and answers.  Everything is written as operators on a state record, so    *)
(* that the same definitions are explored exhaustively (DaxMC) and decide    *)
(* traces recorded from the real server (DaxTrace).                          *)
(*                                                                           *)
(* A request operator takes the state, the client, the request's arguments   *)
(* and an oracle - what the implementation answered - which is used only     *)
(* where the implementation has a free choice (the index of a new tag, the   *)
(* number of a new event, ...).  It returns                                  *)
(*   [s |-> new state, ok |-> accepted?, v |-> answer, g |-> notifications]  *)
(* Notifications are a sequence of bags (sequences in any order): the order  *)
(* between bags is that of the writes that cause them.                       *)
EXTENDS DaxBits, SequencesExt, FiniteSetsExt, Functions

Range1(f) == {f[x] : x \in DOMAIN f}

----------------------------------------------------------------------------
(* Data types.  A type is [b, n, q]: b is the name of a base type or "CDT",  *)
(* n the number of the compound type (-1 for base types), q: is it a queue.  *)

BaseTypes == {"BOOL", "BYTE", "SINT", "CHAR", "WORD", "INT", "UINT", "DWORD", "DINT",
              "UDINT", "REAL", "LWORD", "LINT", "ULINT", "TIME", "LREAL"}
BaseSize(b) == CASE b = "BOOL" -> 0
                 [] b \in {"BYTE", "SINT", "CHAR"} -> 1
                 [] b \in {"WORD", "INT", "UINT"} -> 2
                 [] b \in {"DWORD", "DINT", "UDINT", "REAL"} -> 4
                 [] b \in {"LWORD", "LINT", "ULINT", "TIME", "LREAL"} -> 8
BaseCode(b) == CASE b = "BOOL" -> 16 [] b = "BYTE" -> 3 [] b = "SINT" -> 19 [] b = "CHAR" -> 35
                 [] b = "WORD" -> 4 [] b = "INT" -> 20 [] b = "UINT" -> 36
                 [] b = "DWORD" -> 5 [] b = "DINT" -> 21 [] b = "UDINT" -> 37 [] b = "REAL" -> 53
                 [] b = "LWORD" -> 6 [] b = "LINT" -> 22 [] b = "ULINT" -> 38 [] b = "TIME" -> 54
                 [] b = "LREAL" -> 70
Signed == {"SINT", "CHAR", "INT", "DINT", "LINT", "TIME"}
Floats == {"REAL", "LREAL"}

Base(b) == [b |-> b, n |-> -1, q |-> FALSE]
Cdt(n)  == [b |-> "CDT", n |-> n, q |-> FALSE]
TypeKnown(s, t) == IF t.b = "CDT" THEN t.n \in DOMAIN s.types ELSE t.b \in BaseTypes

(* The four bytes that represent a type to the outside *)
TypeBytes(t) ==
    LET low == IF t.b = "CDT" THEN t.n ELSE BaseCode(t.b)
    IN <<low % 256, (low \div 256) % 256, 0, (IF t.b = "CDT" THEN 128 ELSE 0) + (IF t.q THEN 64 ELSE 0)>>

(* Layout of a compound type: members follow in order, consecutive bits are  *)
(* packed, everything else starts at a byte boundary.  Positions in bits.    *)
Align(pos) == ((pos + 7) \div 8) * 8
RECURSIVE TypeSize(_, _), MemberEnd(_, _, _)
TypeSize(s, t) == IF t.b = "CDT"
                  THEN LET m == s.types[t.n].members IN Align(MemberEnd(s, m, Len(m))) \div 8
                  ELSE BaseSize(t.b)
MemberEnd(s, ms, k) ==
    IF k = 0 THEN 0
    ELSE LET m == ms[k]  before == MemberEnd(s, ms, k - 1)
         IN IF m.t.b = "BOOL" THEN before + m.count
            ELSE Align(before) + 8 * TypeSize(s, m.t) * m.count
(* bit position at which member k starts *)
MemberPos(s, ms, k) == LET before == MemberEnd(s, ms, k - 1)
                       IN IF ms[k].t.b = "BOOL" THEN before ELSE Align(before)

MaxBytes == 2147483647
(* The number of bytes that count elements of type t take, or -1 if there is no such tag *)
TagBytes(s, t, count) ==
    IF t.b = "BOOL" THEN IF t.q THEN (count - 1) \div 8 + 1 ELSE count \div 8 + 1
    ELSE LET z == TypeSize(s, t) IN IF count > MaxBytes \div z THEN -1 ELSE z * count

(* names: a letter or '_' followed by letters, digits and '_', at most 32 *)
IsLetter(ch) == (ch >= 65 /\ ch <= 90) \/ (ch >= 97 /\ ch <= 122) \/ ch = 95
IsDigit(ch) == ch >= 48 /\ ch <= 57
LegalName(chars) == /\ Len(chars) >= 1 /\ Len(chars) <= 32
                    /\ IsLetter(chars[1])
                    /\ \A i \in 2..Len(chars) : IsLetter(chars[i]) \/ IsDigit(chars[i])
Reserved(chars) == Len(chars) >= 1 /\ chars[1] = 95
Padded(chars, n) == TLCEval([i \in 1..n |-> IF i <= Len(chars) THEN chars[i] ELSE 0])

----------------------------------------------------------------------------
(* State *)

NoClient == "-"      \* the server itself
\* fixed indexes of the status tags
TagCountIdx == 0   LastIndexIdx == 1  AddedIdx == 2   DeletedIdx == 3   DbSizeIdx == 4
StartedIdx == 5    LastModuleIdx == 6  OvrInstIdx == 7  OvrSetIdx == 8

NewTag(s, name, chars, t, count, owner, kind) ==
    [name |-> name, chars |-> chars, live |-> TRUE, t |-> t, count |-> count,
     ro |-> FALSE, own |-> FALSE, ret |-> FALSE, sp |-> FALSE, owner |-> owner, kind |-> kind,
     data |-> IF kind = "data" THEN Zeros(TagBytes(s, t, count)) ELSE << >>,
     q |-> << >>, evs |-> << >>, maps |-> << >>,
     om |-> << >>, od |-> << >>, oset |-> FALSE]

Exists(s, idx) == idx \in DOMAIN s.tags
Live(s, idx) == Exists(s, idx) /\ s.tags[idx].live
ByName(s, name) == {i \in DOMAIN s.tags : s.tags[i].live /\ s.tags[i].name = name}
SizeOf(s, idx) == TagBytes(s, s.tags[idx].t, s.tags[idx].count)
IsVirtual(s, idx) == s.tags[idx].kind # "data"
IsQueue(s, idx) == s.tags[idx].kind = "queue"
LiveSet(s) == {i \in DOMAIN s.tags : s.tags[i].live}
Installed(s, idx) == s.tags[idx].om # << >>

----------------------------------------------------------------------------
(* Events *)

EvTypes == {"WRITE", "CHANGE", "SET", "RESET", "EQUAL", "GREATER", "LESS", "DEADBAND", "DELETED"}

EventAllowed(b, et) ==
    \/ et \in {"WRITE", "CHANGE", "DELETED"}
    \/ et \in {"SET", "RESET"} /\ b = "BOOL"
    \/ et = "EQUAL" /\ b \notin {"BOOL", "REAL", "LREAL", "CDT"}
    \/ et \in {"GREATER", "LESS", "DEADBAND"} /\ b \notin {"BOOL", "CDT"}

(* The order of two values of base type b, in the arithmetic of that type *)
Cmp(b, x, y) == IF b \in Floats THEN CmpF(x, y)
                ELSE IF b \in Signed THEN CmpS(x, y) ELSE CmpU(x, y)

(* Have x and y moved apart by at least d? *)
Apart(b, d, x, y) ==
    IF b \in Floats THEN AbsI(FloatToQ(x) - FloatToQ(y)) >= FloatToQ(d)
    ELSE IF b \in Signed
    THEN IsNeg(d) \/ CmpU(IF CmpS(x, y) > 0 THEN SubB(x, y) ELSE SubB(y, x), d) >= 0
    ELSE CmpU(IF CmpU(x, y) > 0 THEN SubB(x, y) ELSE SubB(y, x), d) >= 0

(* What event e does when [off, off+size) of the data it watches was written: *)
(* <<notify?, new remembered state>>.                                         *)
Evaluate(s, e, data, off, size) ==
    LET inc == TypeSize(s, e.t)
        first == MaxI(0, off - e.byte) \div inc
        last == (MinI(e.byte + e.size, off + size) - e.byte - 1) \div inc
        elem(k) == Slice(data, e.byte + k * inc, inc)
    IN CASE e.et = "WRITE" -> <<TRUE, e.test>>
         [] e.et = "DELETED" -> <<FALSE, e.test>>
         [] e.et = "CHANGE" /\ e.t.b = "BOOL" ->
              LET now == TLCEval([k \in 1..e.count |-> BitAt(data, 8 * e.byte + e.bit + k - 1)])
              IN <<now # e.test, now>>
         [] e.et = "CHANGE" /\ e.t.b # "BOOL" ->
              LET now == Slice(data, e.byte, e.size) IN <<now # e.test, now>>
         [] e.et \in {"SET", "RESET"} ->
              LET want == IF e.et = "SET" THEN 1 ELSE 0
                  now == TLCEval([k \in 1..e.count |-> BitAt(data, 8 * e.byte + e.bit + k - 1) = want])
              IN <<\E k \in 1..e.count : now[k] /\ ~e.test[k], now>>
         [] e.et \in {"EQUAL", "GREATER", "LESS"} ->
              LET want == CASE e.et = "EQUAL" -> 0 [] e.et = "GREATER" -> 1 [] e.et = "LESS" -> -1
                  now == TLCEval([k \in 1..e.count |->
                            IF k - 1 >= first /\ k - 1 <= last
                            THEN Cmp(e.t.b, elem(k - 1), e.val) = want ELSE e.test[k]])
              IN <<\E k \in 1..e.count : now[k] /\ ~e.test[k], now>>
         [] e.et = "DEADBAND" ->
              LET moved == {k \in 1..e.count : /\ k - 1 >= first /\ k - 1 <= last
                                               /\ Apart(e.t.b, e.val, e.test[k], elem(k - 1))}
              IN <<moved # {}, TLCEval([k \in 1..e.count |-> IF k \in moved THEN elem(k - 1) ELSE e.test[k]])>>

(* What an event remembers when it is created *)
InitialTest(s, e, data) ==
    LET inc == TypeSize(s, e.t) IN
    CASE e.et \in {"WRITE", "DELETED"} -> << >>
      [] e.et = "CHANGE" /\ e.t.b = "BOOL" -> TLCEval([k \in 1..e.count |-> BitAt(data, 8 * e.byte + e.bit + k - 1)])
      [] e.et = "CHANGE" /\ e.t.b # "BOOL" -> Slice(data, e.byte, e.size)
      [] e.et \in {"SET", "RESET", "EQUAL", "GREATER", "LESS"} -> TLCEval([k \in 1..e.count |-> FALSE])
      [] e.et = "DEADBAND" -> TLCEval([k \in 1..e.count |-> Slice(data, e.byte + (k-1) * inc, inc)])

Notice(idx, e, data) == [c |-> e.c, idx |-> idx, id |-> e.id, et |-> e.et,
                         data |-> IF e.opt THEN Slice(data, e.byte, e.size) ELSE << >>]

(* Evaluates the events of a tag after a write: <<new events, notifications>> *)
EventCheck(s, idx, data, off, size) ==
    LET evs == s.tags[idx].evs
        hit(e) == size > 0 /\ off < e.byte + e.size /\ off + size > e.byte
        res == TLCEval([i \in 1..Len(evs) |->
                  IF hit(evs[i]) THEN Evaluate(s, evs[i], data, off, size) ELSE <<FALSE, evs[i].test>>])
        new == TLCEval([i \in 1..Len(evs) |-> [evs[i] EXCEPT !.test = res[i][2]]])
        fired == SelectSeq([i \in 1..Len(evs) |-> [e |-> evs[i], f |-> res[i][1]]], LAMBDA x : x.f)
    IN <<new, TLCEval([i \in 1..Len(fired) |-> Notice(idx, fired[i].e, data)])>>

(* Every change of a tag's data goes through here: <<new state, bag of notifications>> *)
SetData(s, idx, newdata, off, size) ==
    IF s.tags[idx].evs = << >>
    THEN <<[s EXCEPT !.tags[idx].data = newdata], << >>>>
    ELSE LET ec == EventCheck(s, idx, newdata, off, size)
         IN <<[s EXCEPT !.tags[idx].data = newdata, !.tags[idx].evs = ec[1]], ec[2]>>

(* The server writes one of its status tags *)
SysWrite(r, idx, bytes) ==   \* r is <<state, bag>>
    LET w == SetData(r[1], idx, Splice(r[1].tags[idx].data, 0, bytes), 0, Len(bytes))
    IN <<w[1], r[2] \o w[2]>>

SysInt(r, idx, v) == SysWrite(r, idx, IntBytes(v, 4))

OvrCounts(r) ==
    LET s == r[1]
        inst == Cardinality({i \in LiveSet(s) : Installed(s, i)})
        act == Cardinality({i \in LiveSet(s) : s.tags[i].oset})
        r1 == IF s.tags[OvrInstIdx].data # IntBytes(inst, 4) THEN SysInt(r, OvrInstIdx, inst) ELSE r
    IN IF s.tags[OvrSetIdx].data # IntBytes(act, 4) THEN SysInt(r1, OvrSetIdx, act) ELSE r1

AttrLow(tag) == (IF tag.ro THEN 1 ELSE 0) + (IF tag.kind # "data" THEN 2 ELSE 0)
                + (IF tag.ret THEN 4 ELSE 0) + (IF tag.own THEN 32 ELSE 0)
(* the description of a tag; the attribute bytes are left open (-1) if not asked for *)
Desc(s, idx, attr) ==
    LET t == s.tags[idx] IN
    IntBytes(idx, 4) \o TypeBytes(t.t) \o IntBytes(t.count, 4)
      \o (IF attr THEN <<AttrLow(t), 0>> ELSE <<-1, -1>>) \o Padded(t.chars, 33)

----------------------------------------------------------------------------
(* Mappings *)

MapBits(m) == IF m.src.t.b = "BOOL" THEN m.src.count ELSE 8 * m.src.size
BitMap(m) == m.src.t.b = "BOOL" \/ m.dst.t.b = "BOOL"

(* the destination's new data when mapping m copies *)
MapResult(s, m) ==
    LET src == s.tags[m.src.idx].data
        dst == s.tags[m.dst.idx].data
    IN IF BitMap(m)
       THEN MaskSplice(dst, m.dst.byte,
              MoveBits(src, 8 * m.src.byte + (IF m.src.t.b = "BOOL" THEN m.src.bit ELSE 0), m.dst.bit, MapBits(m), m.dst.size),
              BitMask(m.dst.bit, MapBits(m), m.dst.size))
       ELSE Splice(dst, m.dst.byte, Slice(src, m.src.byte, m.src.size))
MapTouched(m) == IF BitMap(m) THEN m.dst.size ELSE m.src.size

RECURSIVE RunMaps(_, _, _, _, _)
(* r = <<state, bag>>: run the mappings ms of the tag whose [off,off+size) was written *)
RunMaps(r, idx, ms, off, size) ==
    IF ms = << >> THEN r
    ELSE LET m == Head(ms)  s == r[1]
             hit == size > 0 /\ off < m.src.byte + m.src.size /\ off + size > m.src.byte
         IN IF ~hit THEN RunMaps(r, idx, Tail(ms), off, size)
            ELSE IF ~s.tags[m.dst.idx].live
            THEN RunMaps(<<[s EXCEPT !.tags[idx].maps = SelectSeq(@, LAMBDA x : x.id # m.id)], r[2]>>, idx, Tail(ms), off, size)
            ELSE IF s.tags[m.dst.idx].ro
            THEN RunMaps(r, idx, Tail(ms), off, size)
            ELSE LET w == SetData(s, m.dst.idx, MapResult(s, m), m.dst.byte, MapTouched(m))
                 IN RunMaps(<<w[1], r[2] \o w[2]>>, idx, Tail(ms), off, size)

(* A client changed [off, off+size) of a tag to newdata: events, then mappings *)
ClientChange(s, idx, newdata, off, size) ==
    LET w == SetData(s, idx, newdata, off, size)
        m == RunMaps(<<w[1], << >>>>, idx, w[1].tags[idx].maps, off, size)
    IN [s |-> m[1], g |-> <<w[2], m[2]>>]

----------------------------------------------------------------------------
(* Answers *)
Refused(s) == [s |-> s, ok |-> FALSE, v |-> "", g |-> << >>]
RefusedWith(s, e) == [s |-> s, ok |-> FALSE, v |-> e, g |-> << >>]
Done(s, v, g) == [s |-> s, ok |-> TRUE, v |-> v, g |-> g]

(* May client c change this tag's data at all? *)
MayChange(s, c, idx) == s.tags[idx].ro => (s.tags[idx].own /\ s.tags[idx].owner = c)

(* Module status tags: bytes 0..11 are fixed, the last byte (the command    *)
(* bits) is everybody's, the rest belongs to the module.                    *)
ModCmdByte == 77
SpecialOk(s, c, idx, off, size) ==
    s.tags[idx].sp => \/ off = ModCmdByte /\ size = 1
                      \/ c \in DOMAIN s.cl /\ s.cl[c].tag = idx /\ off >= 12

InRange(s, idx, off, size) == off >= 0 /\ size >= 0 /\ size <= SizeOf(s, idx) /\ off <= SizeOf(s, idx) - size

Registered(s, c) == c \in DOMAIN s.cl /\ s.cl[c].reg

----------------------------------------------------------------------------
(* Tags *)

MaxIdx(s) == s.top

AddTagState(s, idx, tag) ==
    LET s1 == [s EXCEPT !.tags = (idx :> tag) @@ @, !.top = MaxI(@, idx), !.cnt = @ + 1]
        r1 == SysInt(<<s1, << >>>>, LastIndexIdx, s1.top)
        r2 == SysInt(r1, TagCountIdx, s1.cnt)
        r3 == SysWrite(r2, AddedIdx, Desc(r2[1], idx, TRUE))
        \* the capacity is whatever the server says, as long as everything fits in it
    IN r3

SetAttr(tag, attr) ==   \* attr: [ret, own, ro]
    IF attr.ret THEN [tag EXCEPT !.ret = tag.kind = "data"]
    ELSE IF attr.own THEN [tag EXCEPT !.own = TRUE, !.ro = @ \/ attr.ro]
    ELSE tag

TagAdd(s, c, a, obs) ==
    LET old == ByName(s, a.name)
        t == a.t
    IN IF \/ a.count <= 0 \/ ~TypeKnown(s, t) \/ ~LegalName(a.chars) \/ Reserved(a.chars)
       THEN Refused(s)
       ELSE IF TagBytes(s, t, a.count) < 0 THEN Refused(s)
       ELSE IF old # {} THEN
         LET i == CHOOSE i \in old : TRUE
             tag == s.tags[i]
             attr1 == SetAttr([tag EXCEPT !.owner = IF a.attr.own THEN c ELSE @], a.attr)
         IN IF (tag.own /\ tag.owner # c) \/ tag.t # t THEN Refused(s)
            ELSE IF a.count <= tag.count
            THEN Done([s EXCEPT !.tags[i] = attr1], i, << >>)
            ELSE IF tag.kind = "queue" THEN Refused(s)
            ELSE LET n == TagBytes(s, t, a.count)
                     grow(x) == x \o Zeros(n - Len(x))
                     big == [attr1 EXCEPT !.count = a.count, !.data = grow(@),
                                          !.om = IF @ = << >> THEN @ ELSE grow(@),
                                          !.od = IF @ = << >> THEN @ ELSE grow(@)]
                     s1 == [s EXCEPT !.tags[i] = big]
                     r == SysWrite(<<s1, << >>>>, AddedIdx, Desc(s1, i, FALSE))
                 IN Done(r[1], i, <<r[2]>>)
       ELSE LET kind == IF t.q THEN "queue" ELSE "data"
                tag == SetAttr(NewTag(s, a.name, a.chars, t, a.count, c, kind), a.attr)
                idx == obs
            IN IF idx \in DOMAIN s.tags \/ idx < 0
               THEN RefusedWith(s, "index reused")   \* no index is ever given twice
               ELSE LET r == AddTagState(s, idx, tag) IN Done(r[1], idx, <<r[2]>>)

(* A tag goes away, for whatever reason *)
RemoveTag(r, idx) ==
    LET s == r[1]
        dels == SelectSeq(s.tags[idx].evs, LAMBDA e : e.et = "DELETED")
        notes == [i \in 1..Len(dels) |-> Notice(idx, dels[i], s.tags[idx].data)]
        dead == [s.tags[idx] EXCEPT !.live = FALSE, !.data = << >>, !.q = << >>, !.evs = << >>, !.maps = << >>,
                                    !.om = << >>, !.od = << >>, !.oset = FALSE, !.ret = FALSE, !.own = FALSE,
                                    !.ro = FALSE, !.sp = FALSE, !.owner = NoClient]
        d == Desc(s, idx, FALSE)
        s1 == [s EXCEPT !.tags[idx] = dead, !.cnt = @ - 1]
        r1 == OvrCounts(<<s1, r[2] \o notes>>)
        r2 == SysWrite(r1, DeletedIdx, d)
    IN SysInt(r2, TagCountIdx, r2[1].cnt)

TagDel(s, c, a) ==
    IF ~Live(s, a.idx) \/ Reserved(s.tags[a.idx].chars) THEN Refused(s)
    ELSE LET r == RemoveTag(<<s, << >>>>, a.idx) IN Done(r[1], a.idx, <<r[2]>>)

TagInfo(s, i) == [idx |-> i, t |-> s.tags[i].t, count |-> s.tags[i].count, name |-> s.tags[i].name,
                  ro |-> s.tags[i].ro, own |-> s.tags[i].own, ret |-> s.tags[i].ret,
                  ovr |-> Installed(s, i), oset |-> s.tags[i].oset]

TagByName(s, a) == LET f == ByName(s, a.name) IN
    IF f = {} THEN Refused(s) ELSE Done(s, TagInfo(s, CHOOSE i \in f : TRUE), << >>)
TagByIndex(s, a) == IF ~Live(s, a.idx) THEN Refused(s) ELSE Done(s, TagInfo(s, a.idx), << >>)

(* What a client sees when it reads: the override where there is one *)
Seen(tag) == IF ~tag.oset THEN tag.data
             ELSE MaskSplice(tag.data, 0, tag.od, tag.om)

MsgData == 4088  \* largest payload of a message

Read(s, c, a) ==
    IF ~Live(s, a.idx) \/ a.size > MsgData \/ a.size < 0 \/ a.off < 0 THEN Refused(s)
    ELSE LET tag == s.tags[a.idx] IN
      CASE tag.kind = "data" ->
             IF ~InRange(s, a.idx, a.off, a.size) THEN Refused(s)
             ELSE Done(s, IF tag.oset THEN Slice(Seen(tag), a.off, a.size) ELSE Slice(tag.data, a.off, a.size), << >>)
        [] tag.kind = "queue" ->
             IF a.off # 0 \/ a.size # SizeOf(s, a.idx) THEN Refused(s)
             ELSE IF tag.q = << >> THEN RefusedWith(s, "EMPTY")
             ELSE Done([s EXCEPT !.tags[a.idx].q = Tail(@)], Head(tag.q), << >>)
        [] tag.kind = "time" ->
             IF ~InRange(s, a.idx, a.off, a.size) THEN Refused(s)
             ELSE Done(s, [i \in 1..a.size |-> -1], << >>)
        [] tag.kind = "myname" ->
             IF ~InRange(s, a.idx, a.off, a.size) \/ ~Registered(s, c) THEN Refused(s)
             ELSE IF s.cl[c].tag < 0 THEN Refused(s)
             ELSE Done(s, Slice(Padded(s.tags[s.cl[c].tag].chars, 33), a.off, a.size), << >>)

PushQueue(s, idx, bytes) ==
    LET ec == EventCheck([s EXCEPT !.tags[idx].data = << >>], idx, << >>, 0, Len(bytes))
    IN [s |-> [s EXCEPT !.tags[idx].q = Append(@, bytes)], g |-> <<ec[2]>>]

(* Would a write of these bytes be refused?  (the same for all kinds of writes) *)
WriteRefused(s, c, idx, off, size) ==
    \/ ~Live(s, idx)
    \/ ~MayChange(s, c, idx)
    \/ s.tags[idx].kind \in {"time", "myname"}
    \/ s.tags[idx].kind = "queue" /\ (off # 0 \/ size # SizeOf(s, idx))
    \/ s.tags[idx].kind = "data" /\ ~InRange(s, idx, off, size)
    \/ ~SpecialOk(s, c, idx, off, size)

Write(s, c, a) ==
    LET size == Len(a.data) IN
    IF WriteRefused(s, c, a.idx, a.off, size) THEN Refused(s)
    ELSE LET r == IF IsQueue(s, a.idx) THEN PushQueue(s, a.idx, a.data)
                  ELSE ClientChange(s, a.idx, Splice(s.tags[a.idx].data, a.off, a.data), a.off, size)
         IN Done(r.s, << >>, r.g)

MaskWrite(s, c, a) ==
    LET size == Len(a.data) IN
    IF \/ ~Live(s, a.idx) \/ WriteRefused(s, c, a.idx, a.off, size) \/ IsVirtual(s, a.idx) THEN Refused(s)
    ELSE LET r == ClientChange(s, a.idx, MaskSplice(s.tags[a.idx].data, a.off, a.data, a.mask), a.off, size)
         IN Done(r.s, << >>, r.g)

----------------------------------------------------------------------------
(* Handles: [idx, byte, bit, count, size, t] name a part of a tag *)
BoolBytes(bit, count) == (bit + count - 1) \div 8 + 1
HandleOk(s, h) ==
    /\ h.count > 0 /\ h.size > 0 /\ h.byte >= 0 /\ h.bit >= 0
    /\ IF h.t.b = "BOOL" THEN h.bit < 8 /\ BoolBytes(h.bit, h.count) = h.size
       ELSE TypeKnown(s, h.t) /\ TagBytes(s, h.t, h.count) = h.size

EvAdd(s, c, a, obs) ==
    LET h == a.h IN
    IF ~Live(s, h.idx) \/ ~Registered(s, c) \/ a.et \notin EvTypes THEN Refused(s)
    ELSE LET tag == s.tags[h.idx] IN
      IF tag.kind \in {"time", "myname"} THEN Refused(s)
      ELSE IF tag.kind = "queue" /\ (h.byte # 0 \/ a.et # "WRITE" \/ h.size # SizeOf(s, h.idx)) THEN Refused(s)
      ELSE IF ~InRange(s, h.idx, h.byte, h.size) \/ (tag.kind = "data" /\ ~HandleOk(s, h)) THEN Refused(s)
      ELSE IF ~EventAllowed(h.t.b, a.et) THEN Refused(s)
      ELSE IF obs \in {tag.evs[i].id : i \in DOMAIN tag.evs} THEN RefusedWith(s, "event id reused")
      ELSE LET e0 == [id |-> obs, c |-> c, byte |-> h.byte, bit |-> h.bit, count |-> h.count, size |-> h.size,
                      t |-> h.t, et |-> a.et, val |-> a.val, opt |-> FALSE, test |-> << >>]
               e == [e0 EXCEPT !.test = IF tag.kind = "queue" THEN << >> ELSE InitialTest(s, e0, tag.data)]
           IN Done([s EXCEPT !.tags[h.idx].evs = <<e>> \o @], obs, << >>)

FindEv(s, c, idx, id) == {i \in DOMAIN s.tags[idx].evs : s.tags[idx].evs[i].id = id /\ s.tags[idx].evs[i].c = c}

EvDel(s, c, a) ==
    IF ~Live(s, a.idx) THEN Refused(s)
    ELSE IF FindEv(s, c, a.idx, a.id) = {} THEN Refused(s)
    ELSE Done([s EXCEPT !.tags[a.idx].evs = SelectSeq(@, LAMBDA e : e.id # a.id)], << >>, << >>)

EvOpt(s, c, a) ==
    IF ~Live(s, a.idx) THEN Refused(s)
    ELSE LET f == FindEv(s, c, a.idx, a.id) IN
      IF f = {} THEN Refused(s)
      ELSE LET i == CHOOSE i \in f : TRUE IN
        IF a.send /\ (IsQueue(s, a.idx) \/ s.tags[a.idx].evs[i].size > MsgData - 8) THEN Refused(s)
        ELSE Done([s EXCEPT !.tags[a.idx].evs[i].opt = a.send], << >>, << >>)

----------------------------------------------------------------------------
(* Compound types *)
TypeByName(s, low) == {n \in DOMAIN s.types : s.types[n].low = low}
LowBase == [x \in {"bool", "byte", "sint", "char", "word", "int", "uint", "dword", "dint", "udint",
                   "real", "lword", "lint", "ulint", "time", "lreal"} |->
            CASE x = "bool" -> "BOOL" [] x = "byte" -> "BYTE" [] x = "sint" -> "SINT" [] x = "char" -> "CHAR"
              [] x = "word" -> "WORD" [] x = "int" -> "INT" [] x = "uint" -> "UINT" [] x = "dword" -> "DWORD"
              [] x = "dint" -> "DINT" [] x = "udint" -> "UDINT" [] x = "real" -> "REAL" [] x = "lword" -> "LWORD"
              [] x = "lint" -> "LINT" [] x = "ulint" -> "ULINT" [] x = "time" -> "TIME" [] x = "lreal" -> "LREAL"]
ResolveType(s, low) ==   \* {} or {type}
    IF low \in DOMAIN LowBase THEN {Base(LowBase[low])}
    ELSE {Cdt(n) : n \in TypeByName(s, low)}

(* size in bytes of a would-be type, -1 if it can't be represented *)
RECURSIVE MembersFit(_, _, _, _)
MembersFit(s, ms, k, bytes) ==   \* over-approximated in bytes to stay within TLC's integers
    IF k > Len(ms) THEN TRUE
    ELSE LET z == IF ms[k].t.b = "BOOL" THEN ms[k].count \div 8 + 2
                  ELSE LET u == TypeSize(s, ms[k].t) IN IF ms[k].count > 250000000 \div u THEN 250000001 ELSE u * ms[k].count
         IN IF z > 250000000 \/ bytes + z > 250000000 THEN FALSE ELSE MembersFit(s, ms, k + 1, bytes + z)

CdtCreate(s, c, a, obs) ==
    LET legalM(m) == LegalName(m.chars) /\ m.count >= 1 /\ ResolveType(s, m.tlow) # {}
        ms == [i \in 1..Len(a.members) |->
                 [name |-> a.members[i].name, low |-> a.members[i].low, count |-> a.members[i].count,
                  t |-> CHOOSE t \in ResolveType(s, a.members[i].tlow) : TRUE]]
    IN IF a.bad \/ ~LegalName(a.chars) \/ a.low \in DOMAIN LowBase THEN Refused(s)
       ELSE IF TypeByName(s, a.low) # {} THEN
         LET n == CHOOSE n \in TypeByName(s, a.low) : TRUE
             old == s.types[n]
         IN IF /\ \A i \in DOMAIN a.members : legalM(a.members[i])
               /\ Len(old.members) = Len(a.members)     \* in any spelling
               /\ \A i \in DOMAIN ms : old.members[i].low = ms[i].low /\ old.members[i].t = ms[i].t /\ old.members[i].count = ms[i].count
            THEN Done(s, Cdt(n), << >>) ELSE Refused(s)
       ELSE IF \/ Len(a.members) = 0 \/ \E i \in DOMAIN a.members : ~legalM(a.members[i])
            \/ \E i, j \in DOMAIN a.members : i < j /\ a.members[i].low = a.members[j].low
       THEN Refused(s)
       ELSE IF ~MembersFit(s, TLCEval(ms), 1, 0) THEN Refused(s)
       ELSE IF obs.b # "CDT" \/ obs.n \in DOMAIN s.types THEN RefusedWith(s, "type number reused")
       ELSE Done([s EXCEPT !.types = (obs.n :> [name |-> a.name, low |-> a.low, members |-> TLCEval(ms)]) @@ @], obs, << >>)

TName(s, t) == IF t.b = "CDT" THEN s.types[t.n].name ELSE t.b
CdtInfo(s, n) == [t |-> Cdt(n), name |-> s.types[n].name,
                  members |-> TLCEval([i \in 1..Len(s.types[n].members) |->
                     [name |-> s.types[n].members[i].name, tname |-> TName(s, s.types[n].members[i].t),
                      count |-> s.types[n].members[i].count]])]
CdtByName(s, a) == LET f == TypeByName(s, a.low) IN
    IF f = {} THEN Refused(s) ELSE Done(s, CdtInfo(s, CHOOSE n \in f : TRUE), << >>)
CdtByType(s, a) == IF a.t.b # "CDT" \/ a.t.n \notin DOMAIN s.types THEN Refused(s) ELSE Done(s, CdtInfo(s, a.t.n), << >>)

----------------------------------------------------------------------------
(* Mappings: requests *)
SpecialDestOk(s, h) == s.tags[h.idx].sp => (h.byte = ModCmdByte /\ h.size = 1)
MapAdd(s, c, a, obs) ==
    LET src == a.src  dst == a.dst  m0 == [src |-> src, dst |-> dst] IN
    IF ~Live(s, src.idx) \/ ~Live(s, dst.idx) THEN Refused(s)
    ELSE IF IsVirtual(s, src.idx) \/ IsVirtual(s, dst.idx) \/ s.tags[dst.idx].ro \/ ~SpecialDestOk(s, dst) THEN Refused(s)
    ELSE IF ~InRange(s, src.idx, src.byte, src.size) \/ ~InRange(s, dst.idx, dst.byte, dst.size) THEN Refused(s)
    ELSE IF src.size = 0 \/ (src.t.b = "BOOL" /\ (src.count <= 0 \/ src.bit > 7 \/ src.bit + src.count > src.size * 8)) THEN Refused(s)
    ELSE IF BitMap(m0) /\ \/ dst.bit > 7
                          \/ MapBits(m0) > 8 * dst.size - dst.bit
                          \/ (dst.t.b = "BOOL" /\ MapBits(m0) > dst.count) THEN Refused(s)
    ELSE IF ~BitMap(m0) /\ src.size > dst.size THEN Refused(s)
    ELSE LET ms == s.tags[src.idx].maps
             dup == {i \in DOMAIN ms : ms[i].src = src /\ ms[i].dst = dst}
         IN IF dup # {} THEN Done(s, ms[CHOOSE i \in dup : TRUE].id, << >>)
            ELSE IF obs \in {ms[i].id : i \in DOMAIN ms} THEN RefusedWith(s, "map id reused")
            ELSE Done([s EXCEPT !.tags[src.idx].maps = <<[id |-> obs, src |-> src, dst |-> dst]>> \o @], obs, << >>)

FindMap(s, a) == IF ~Live(s, a.idx) THEN {} ELSE {i \in DOMAIN s.tags[a.idx].maps : s.tags[a.idx].maps[i].id = a.id}
MapDel(s, c, a) ==
    IF FindMap(s, a) = {} THEN Refused(s)
    ELSE Done([s EXCEPT !.tags[a.idx].maps = SelectSeq(@, LAMBDA m : m.id # a.id)], << >>, << >>)
MapGet(s, c, a) ==
    LET f == FindMap(s, a) IN
    IF f = {} THEN Refused(s)
    ELSE LET m == s.tags[a.idx].maps[CHOOSE i \in f : TRUE] IN Done(s, [src |-> m.src, dst |-> m.dst], << >>)

----------------------------------------------------------------------------
(* Groups *)
MaxMembers == 150
GroupData == 4084
RECURSIVE SumSizes(_, _)
SumSizes(hs, k) == IF k = 0 THEN 0 ELSE hs[k].size + SumSizes(hs, k - 1)
MemberOk(s, h) ==
    /\ Live(s, h.idx) /\ h.size > 0 /\ h.byte >= 0
    /\ InRange(s, h.idx, h.byte, h.size)
    /\ IsQueue(s, h.idx) => h.size = SizeOf(s, h.idx)
    /\ h.t.b = "BOOL" => h.bit <= 7 /\ h.count >= 0 /\ h.bit + h.count <= 8 * h.size
GrpAdd(s, c, a, obs) ==
    IF ~Registered(s, c) \/ Len(a.hs) > MaxMembers THEN Refused(s)
    ELSE IF \E i \in DOMAIN a.hs : ~MemberOk(s, a.hs[i]) THEN Refused(s)
    ELSE IF SumSizes(a.hs, Len(a.hs)) > GroupData THEN Refused(s)
    ELSE IF obs \in DOMAIN s.cl[c].grp THEN RefusedWith(s, "group id reused")
    ELSE Done([s EXCEPT !.cl[c].grp = (obs :> a.hs) @@ @], obs, << >>)
HasGroup(s, c, id) == Registered(s, c) /\ id \in DOMAIN s.cl[c].grp
GrpDel(s, c, a) ==
    IF ~HasGroup(s, c, a.id) THEN Refused(s)
    ELSE Done([s EXCEPT !.cl[c].grp = TLCEval([x \in DOMAIN @ \ {a.id} |-> @[x]])], << >>, << >>)

RECURSIVE ReadMembers(_, _, _, _)
ReadMembers(s, c, hs, acc) ==
    IF hs = << >> THEN Done(s, acc, << >>)
    ELSE LET h == Head(hs)
             r == Read(s, c, [idx |-> h.idx, off |-> h.byte, size |-> h.size])
         IN IF ~r.ok THEN r ELSE ReadMembers(r.s, c, Tail(hs), acc \o r.v)
GrpRead(s, c, a) ==
    IF ~HasGroup(s, c, a.id) THEN Refused(s)
    ELSE ReadMembers(s, c, s.cl[c].grp[a.id], << >>)

RECURSIVE WriteMembers(_, _, _, _, _)
WriteMembers(s, c, hs, data, g) ==
    IF hs = << >> THEN Done(s, << >>, g)
    ELSE LET h == Head(hs)
             d == SubSeq(data, 1, h.size)
             r == IF h.t.b = "BOOL" /\ Live(s, h.idx) /\ ~IsVirtual(s, h.idx)
                  THEN MaskWrite(s, c, [idx |-> h.idx, off |-> h.byte, data |-> d, mask |-> BitMask(h.bit, h.count, h.size)])
                  ELSE Write(s, c, [idx |-> h.idx, off |-> h.byte, data |-> d])
         IN IF ~r.ok THEN [r EXCEPT !.g = g]
            ELSE WriteMembers(r.s, c, Tail(hs), SubSeq(data, h.size + 1, Len(data)), g \o r.g)
GrpWrite(s, c, a) ==
    IF ~HasGroup(s, c, a.id) THEN Refused(s)
    ELSE IF Len(a.data) < SumSizes(s.cl[c].grp[a.id], Len(s.cl[c].grp[a.id])) THEN Refused(s)
    ELSE WriteMembers(s, c, s.cl[c].grp[a.id], a.data, << >>)

----------------------------------------------------------------------------
(* Atomic operations *)
AtomicOps == {"INC", "DEC", "NOT", "OR", "AND", "NOR", "NAND", "XOR", "XNOR"}
BitOp(op, x, y) ==
    CASE op = "NOT" -> 1 - x
      [] op = "OR" -> IF x + y > 0 THEN 1 ELSE 0
      [] op = "AND" -> x * y
      [] op = "NOR" -> IF x + y > 0 THEN 0 ELSE 1
      [] op = "NAND" -> 1 - x * y
      [] op = "XOR" -> IF x = y THEN 0 ELSE 1
      [] op = "XNOR" -> IF x = y THEN 1 ELSE 0
ByteOp(op, x, y) ==
    CASE op = "NOT" -> 255 - x
      [] op = "OR" -> x | y
      [] op = "AND" -> x & y
      [] op = "NOR" -> 255 - (x | y)
      [] op = "NAND" -> 255 - (x & y)
      [] op = "XOR" -> x ^^ y
      [] op = "XNOR" -> 255 - (x ^^ y)
(* the part of the tag after the operation *)
AtomicResult(h, op, old, x) ==
    IF op \in {"INC", "DEC"} THEN
       IF h.t.b \in Floats
       THEN LET p == FloatToQ(old)  q == FloatToQ(x) IN QToFloat(IF op = "INC" THEN p + q ELSE p - q, h.size)
       ELSE IF op = "INC" THEN AddB(old, x) ELSE SubB(old, x)
    ELSE IF h.t.b = "BOOL" THEN
       LET bv(k) == IF k >= h.bit /\ k < h.bit + h.count
                    THEN BitOp(op, BitAt(old, k), BitAt(x, k - h.bit)) ELSE BitAt(old, k)
       IN TLCEval([i \in 1..h.size |-> LET o == 8*(i-1) IN
             bv(o) + 2*bv(o+1) + 4*bv(o+2) + 8*bv(o+3) + 16*bv(o+4) + 32*bv(o+5) + 64*bv(o+6) + 128*bv(o+7)])
    ELSE TLCEval([i \in 1..h.size |-> ByteOp(op, old[i], x[i])])

Atomic(s, c, a) ==
    LET h == a.h IN
    IF ~Live(s, h.idx) \/ a.aop \notin AtomicOps THEN Refused(s)
    ELSE IF ~MayChange(s, c, h.idx) \/ IsVirtual(s, h.idx) \/ s.tags[h.idx].sp THEN Refused(s)
    ELSE IF h.t.b = "CDT" \/ ~HandleOk(s, h) \/ ~InRange(s, h.idx, h.byte, h.size) THEN Refused(s)
    ELSE IF a.aop \in {"INC", "DEC"} /\ (h.t.b = "BOOL" \/ h.count # 1) THEN Refused(s)
    ELSE IF a.aop \notin {"INC", "DEC"} /\ h.t.b \in Floats THEN Refused(s)
    ELSE LET old == Slice(s.tags[h.idx].data, h.byte, h.size)
             new == AtomicResult(h, a.aop, old, a.data)
             r == ClientChange(s, h.idx, Splice(s.tags[h.idx].data, h.byte, new), h.byte, h.size)
         IN Done(r.s, << >>, r.g)

----------------------------------------------------------------------------
(* Overrides *)
OvrAdd(s, c, a) ==
    LET size == Len(a.data) IN
    IF ~Live(s, a.idx) THEN Refused(s)
    ELSE IF IsVirtual(s, a.idx) \/ ~InRange(s, a.idx, a.off, size) THEN Refused(s)
    ELSE LET tag == s.tags[a.idx]
             n == Len(tag.data)
             om0 == IF tag.om = << >> THEN Zeros(n) ELSE tag.om
             od0 == IF tag.od = << >> THEN Zeros(n) ELSE tag.od
             s1 == [s EXCEPT !.tags[a.idx].om = MaskSplice(om0, a.off, a.mask, a.mask),
                             !.tags[a.idx].od = MaskSplice(od0, a.off, a.data, a.mask)]
             r == OvrCounts(<<s1, << >>>>)
         IN Done(r[1], << >>, <<r[2]>>)
OvrDel(s, c, a) ==
    LET size == Len(a.mask) IN
    IF ~Live(s, a.idx) THEN Refused(s)
    ELSE IF ~Installed(s, a.idx) \/ ~InRange(s, a.idx, a.off, size) THEN Refused(s)
    ELSE LET tag == s.tags[a.idx]
             z == Zeros(size)
             om1 == MaskSplice(tag.om, a.off, z, a.mask)
             od1 == MaskSplice(tag.od, a.off, z, a.mask)
             gone == \A i \in DOMAIN om1 : om1[i] = 0
             s1 == IF gone THEN [s EXCEPT !.tags[a.idx].om = << >>, !.tags[a.idx].od = << >>, !.tags[a.idx].oset = FALSE]
                   ELSE [s EXCEPT !.tags[a.idx].om = om1, !.tags[a.idx].od = od1]
             r == OvrCounts(<<s1, << >>>>)
         IN Done(r[1], << >>, <<r[2]>>)
OvrGet(s, c, a) ==
    IF ~Live(s, a.idx) THEN Refused(s)
    ELSE IF ~Installed(s, a.idx) \/ a.size > MsgData \div 2 \/ ~InRange(s, a.idx, a.off, a.size) THEN Refused(s)
    ELSE Done(s, Slice(s.tags[a.idx].data, a.off, a.size) \o Slice(s.tags[a.idx].om, a.off, a.size), << >>)
OvrSet(s, c, a) ==
    IF ~Live(s, a.idx) THEN Refused(s)
    ELSE IF a.on /\ ~Installed(s, a.idx) THEN Refused(s)
    ELSE LET r == OvrCounts(<<[s EXCEPT !.tags[a.idx].oset = a.on], << >>>>)
         IN Done(r[1], << >>, <<r[2]>>)

----------------------------------------------------------------------------
(* Connections and modules *)
FreshClient == [reg |-> FALSE, tag |-> -1, grp |-> << >>]
Connect(s, c) == Done([s EXCEPT !.cl = (c :> FreshClient) @@ @], << >>, << >>)

RECURSIVE RemoveAll(_, _)
RemoveAll(r, idxs) == IF idxs = {} THEN r
                      ELSE LET i == Min(idxs) IN RemoveAll(RemoveTag(r, i), idxs \ {i})

(* everything that belongs to a connection goes away *)
Leave(s, c) ==
    LET s1 == [s EXCEPT !.tags = TLCEval([i \in DOMAIN @ |->
                  IF @[i].evs = << >> THEN @[i]
                  ELSE [@[i] EXCEPT !.evs = SelectSeq(@, LAMBDA e : e.c # c)]])]
        mine == {i \in LiveSet(s1) : s1.tags[i].own /\ s1.tags[i].owner = c}
        mt == IF s.cl[c].tag >= 0 THEN {s.cl[c].tag} ELSE {}
        r1 == RemoveAll(<<s1, << >>>>, mine)
        r2 == RemoveAll(r1, mt)
    IN <<[r2[1] EXCEPT !.cl[c] = FreshClient], r2[2]>>

Disconnect(s, c) ==
    LET r == Leave(s, c)
    IN Done([r[1] EXCEPT !.cl = TLCEval([x \in DOMAIN @ \ {c} |-> @[x]])], << >>, <<r[2]>>)

(* The name of a module's tag is "_m" and its own name, cut to 32 characters. *)
(* If that is taken some digits replace or follow the end.                    *)
BaseModName(chars) == <<95, 109>> \o SubSeq(chars, 1, MinI(Len(chars), 30))
Prefix(p, x) == Len(p) <= Len(x) /\ SubSeq(x, 1, Len(p)) = p
ModNameOk(s, chars, tagname, tagchars) ==
    LET b == BaseModName(chars)
        taken == \E i \in LiveSet(s) : s.tags[i].chars = b
    IN IF ~taken THEN tagchars = b
       ELSE /\ ByName(s, tagname) = {}
            /\ LegalName(tagchars)
            /\ \E k \in 1..9 : LET n == Len(tagchars) - k IN
                 /\ n >= 2
                 /\ \A j \in (n+1)..Len(tagchars) : IsDigit(tagchars[j])
                 /\ Prefix(SubSeq(tagchars, 1, n), b)
                 /\ n = Len(b) \/ Len(tagchars) = 32

(* a: [chars, excluded]; obs: [has, idx, name, chars, data, timeok, lastmod] as found out   *)
(* by the client right after registering.                                        *)
Register(s, c, a, obs) ==
    LET r0 == IF s.cl[c].reg THEN Leave(s, c) ELSE <<s, << >>>>
        s0 == [r0[1] EXCEPT !.cl[c].reg = TRUE]
        want == ~a.excluded /\ LegalName(BaseModName(a.chars))
        ids == {Slice(s0.tags[i].data, 8, 4) : i \in {j \in LiveSet(s0) : s0.tags[j].sp}}
    IN IF ~want
       THEN IF obs.has THEN RefusedWith(s, "unexpected module tag") ELSE Done(s0, << >>, <<r0[2]>>)
       ELSE IF ~obs.has THEN RefusedWith(s, "module tag missing")
       ELSE IF ~ModNameOk(s0, a.chars, obs.name, obs.chars) THEN RefusedWith(s, "module tag name")
       ELSE IF obs.idx \in DOMAIN s0.tags THEN RefusedWith(s, "index reused")
       ELSE IF ~obs.timeok THEN RefusedWith(s, "start time")
       ELSE IF Len(obs.data) # 78 \/ Slice(obs.data, 8, 4) \in ids THEN RefusedWith(s, "identity")
       ELSE IF Slice(obs.data, 12, 66) # Zeros(66) THEN RefusedWith(s, "initial state of module tag")
       ELSE LET tag == NewTag(s0, obs.name, obs.chars, Cdt(0), 1, NoClient, "data")
                r1 == AddTagState(s0, obs.idx, tag)
                s2 == [r1[1] EXCEPT !.tags[obs.idx].data = obs.data, !.tags[obs.idx].sp = TRUE, !.cl[c].tag = obs.idx]
                r3 == SysWrite(<<s2, r0[2] \o r1[2]>>, LastModuleIdx, Padded(obs.chars, 33))
            IN Done(r3[1], << >>, <<r3[2]>>)

----------------------------------------------------------------------------
(* The server when it has just started *)
SysTypes == (0 :> [name |-> "_module", low |-> "_module", members |-> <<
                [name |-> "starttime", low |-> "starttime", t |-> Base("TIME"), count |-> 1],
                [name |-> "id", low |-> "id", t |-> Base("DINT"), count |-> 1],
                [name |-> "running", low |-> "running", t |-> Base("BOOL"), count |-> 1],
                [name |-> "faulted", low |-> "faulted", t |-> Base("BOOL"), count |-> 1],
                [name |-> "status", low |-> "status", t |-> Base("CHAR"), count |-> 64],
                [name |-> "stop", low |-> "stop", t |-> Base("BOOL"), count |-> 1],
                [name |-> "run", low |-> "run", t |-> Base("BOOL"), count |-> 1],
                [name |-> "reload", low |-> "reload", t |-> Base("BOOL"), count |-> 1],
                [name |-> "kill", low |-> "kill", t |-> Base("BOOL"), count |-> 1]>>])
         @@ (1 :> [name |-> "_tag_desc", low |-> "_tag_desc", members |-> <<
                [name |-> "index", low |-> "index", t |-> Base("DINT"), count |-> 1],
                [name |-> "type", low |-> "type", t |-> Base("UDINT"), count |-> 1],
                [name |-> "count", low |-> "count", t |-> Base("UDINT"), count |-> 1],
                [name |-> "attributes", low |-> "attributes", t |-> Base("UINT"), count |-> 1],
                [name |-> "name", low |-> "name", t |-> Base("CHAR"), count |-> 33]>>])
(* top: the highest index ever given, cnt: the number of live tags, kn: see DaxLib, mb: see DaxModbus *)
Empty0 == [tags |-> << >>, types |-> SysTypes, cl |-> << >>, top |-> 10, cnt |-> 11, kn |-> << >>, mb |-> << >>]
SysTag(name, chars, t, count, kind) == [NewTag(Empty0, name, chars, t, count, NoClient, kind) EXCEPT !.ro = TRUE]
AnyBytes(n) == [i \in 1..n |-> -1]
SysTags ==
    LET T(n, nm, ch, t, cnt, k) == n :> SysTag(nm, ch, t, cnt, k) IN
       T(0, "_tagcount", <<95,116,97,103,99,111,117,110,116>>, Base("DINT"), 1, "data")
    @@ T(1, "_lastindex", <<95,108,97,115,116,105,110,100,101,120>>, Base("DINT"), 1, "data")
    @@ T(2, "_tag_added", <<95,116,97,103,95,97,100,100,101,100>>, Cdt(1), 1, "data")
    @@ T(3, "_tag_deleted", <<95,116,97,103,95,100,101,108,101,116,101,100>>, Cdt(1), 1, "data")
    @@ T(4, "_dbsize", <<95,100,98,115,105,122,101>>, Base("DINT"), 1, "data")
    @@ T(5, "_starttime", <<95,115,116,97,114,116,116,105,109,101>>, Base("TIME"), 1, "data")
    @@ T(6, "_lastmodule", <<95,108,97,115,116,109,111,100,117,108,101>>, Base("CHAR"), 33, "data")
    @@ T(7, "_overrides_installed", <<95,111,118,101,114,114,105,100,101,115,95,105,110,115,116,97,108,108,101,100>>, Base("DINT"), 1, "data")
    @@ T(8, "_overrides_set", <<95,111,118,101,114,114,105,100,101,115,95,115,101,116>>, Base("DINT"), 1, "data")
    @@ T(9, "_time", <<95,116,105,109,101>>, Base("TIME"), 1, "time")
    @@ T(10, "_my_tagname", <<95,109,121,95,116,97,103,110,97,109,101>>, Base("CHAR"), 33, "myname")
Fresh == LET s0 == [Empty0 EXCEPT !.tags = SysTags]
             s1 == [s0 EXCEPT !.tags[TagCountIdx].data = IntBytes(11, 4),
                              !.tags[LastIndexIdx].data = IntBytes(10, 4),
                              !.tags[AddedIdx].data = AnyBytes(47),
                              !.tags[DbSizeIdx].data = AnyBytes(4),
                              !.tags[StartedIdx].data = AnyBytes(8)]
         IN TLCEval(s1)

----------------------------------------------------------------------------
(* All requests *)
Handle(s, c, op, a, obs) ==
    CASE op = "connect" -> Connect(s, c)
      [] op = "register" -> Register(s, c, a, obs)
      [] op = "disconnect" -> Disconnect(s, c)
      [] op = "add" -> TagAdd(s, c, a, obs)
      [] op = "del" -> TagDel(s, c, a)
      [] op = "getn" -> TagByName(s, a)
      [] op = "geti" -> TagByIndex(s, a)
      [] op = "read" -> Read(s, c, a)
      [] op = "write" -> Write(s, c, a)
      [] op = "mwrite" -> MaskWrite(s, c, a)
      [] op = "evadd" -> EvAdd(s, c, a, obs)
      [] op = "evdel" -> EvDel(s, c, a)
      [] op = "evopt" -> EvOpt(s, c, a)
      [] op = "cdtnew" -> CdtCreate(s, c, a, obs)
      [] op = "cdtn" -> CdtByName(s, a)
      [] op = "cdtt" -> CdtByType(s, a)
      [] op = "mapadd" -> MapAdd(s, c, a, obs)
      [] op = "mapdel" -> MapDel(s, c, a)
      [] op = "mapget" -> MapGet(s, c, a)
      [] op = "grpadd" -> GrpAdd(s, c, a, obs)
      [] op = "grpdel" -> GrpDel(s, c, a)
      [] op = "grpread" -> GrpRead(s, c, a)
      [] op = "grpwrite" -> GrpWrite(s, c, a)
      [] op = "atomic" -> Atomic(s, c, a)
      [] op = "ovradd" -> OvrAdd(s, c, a)
      [] op = "ovrdel" -> OvrDel(s, c, a)
      [] op = "ovrget" -> OvrGet(s, c, a)
      [] op = "ovrset" -> OvrSet(s, c, a)
      [] op = "nop" -> Done(s, << >>, << >>)       \* a request that is accepted and changes nothing
      [] op = "bad" -> Refused(s)                  \* a malformed request
=============================================================================
