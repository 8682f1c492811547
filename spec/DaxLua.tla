------------------------------- MODULE DaxLua -------------------------------
(* The package for Lua scripts: what its functions do to the tags and what   *)
(* they return.  A script is a client of the library.                        *)
(*                                                                           *)
(* A value of a script is [k, b, m]: k is its kind, b its bytes - of an      *)
(* "int" the 8 of the number, of a "num" the 8 of the double, of a "str" the *)
(* characters - and m the entries of a "tab", [n, i, v]: v under the name n  *)
(* or, where n is "", the number i.                                          *)
EXTENDS DaxModbus

UVal(k, b) == [k |-> k, b |-> b, m |-> << >>]
UNil == UVal("nil", << >>)
UBool(x) == UVal("bool", <<IF x THEN 1 ELSE 0>>)
UInt(b) == UVal("int", b)
UNum(b) == UVal("num", b)
UStr(b) == UVal("str", b)
UTab(m) == [k |-> "tab", b |-> << >>, m |-> m]

RECURSIVE SameVal(_, _)
SameVal(x, y) ==        \* a table has no order
    /\ x.k = y.k /\ x.b = y.b /\ Len(x.m) = Len(y.m)
    /\ \A i \in DOMAIN x.m : \E j \in DOMAIN y.m :
         x.m[i].n = y.m[j].n /\ x.m[i].i = y.m[j].i /\ SameVal(x.m[i].v, y.m[j].v)

Field(v, nm) == LET f == {i \in DOMAIN v.m : v.m[i].n = nm} IN IF f = {} THEN UNil ELSE v.m[CHOOSE i \in f : TRUE].v
Nth(v, k) == LET f == {i \in DOMAIN v.m : v.m[i].n = "" /\ v.m[i].i = k} IN IF f = {} THEN UNil ELSE v.m[CHOOSE i \in f : TRUE].v

----------------------------------------------------------------------------
(* Numbers.  All of it on the bits: neither 64 bit integers nor doubles fit  *)
(* into the integers of TLC.                                                 *)

OneByte == {"BYTE", "SINT", "CHAR"}
Wide(t, b) == TLCEval(b \o [i \in 1..(8 - Len(b)) |-> IF t \in Signed /\ IsNeg(b) THEN 255 ELSE 0])

DoubleOf(sgn, e, frac) ==       \* frac: 8 bytes of which 52 bits count
    TLCEval([i \in 1..8 |-> CASE i < 7 -> frac[i] [] i = 7 -> (frac[7] % 16) + 16 * (e % 16) [] i = 8 -> (e \div 16) + 128 * sgn])
RealToDouble(b) ==
    LET e == (b[4] % 128) * 2 + b[3] \div 128  sgn == b[4] \div 128
    IN IF Magn(b) = Zeros(4) THEN DoubleOf(sgn, 0, Zeros(8))
       ELSE DoubleOf(sgn, IF e = 255 THEN 2047 ELSE e + 896, MoveBits(b, 0, 29, 23, 8))
DoubleToReal(b) ==              \* of a number that is one
    LET e == (b[8] % 128) * 16 + b[7] \div 16  sgn == b[8] \div 128
        f == MoveBits(b, 29, 0, 23, 4)
        n == e - 896
    IN IF Magn(b) = Zeros(8) THEN <<0, 0, 0, 128 * sgn>>
       ELSE TLCEval(<<f[1], f[2], (f[3] % 128) + 128 * (n % 2), n \div 2 + 128 * sgn>>)
Highest(b) == LET f == {k \in 0..(8 * Len(b) - 1) : BitAt(b, k) = 1} IN CHOOSE k \in f : \A j \in f : j <= k
IntToDouble(b) ==               \* up to 2^53
    IF b = Zeros(8) THEN b
    ELSE LET m == IF IsNeg(b) THEN NegB(b) ELSE b
             k == Highest(m)
         IN DoubleOf(IF IsNeg(b) THEN 1 ELSE 0, 1023 + k, MoveBits(m, 0, 52 - k, k, 8))
DoubleToInt(b) ==               \* without what is behind the point
    LET e == (b[8] % 128) * 16 + b[7] \div 16
        m == TLCEval([i \in 1..8 |-> CASE i < 7 -> b[i] [] i = 7 -> (b[7] % 16) + 16 [] i = 8 -> 0])
        sh == e - 1075
        x == IF e < 1023 THEN Zeros(8)
             ELSE IF sh >= 0 THEN MoveBits(m, 0, sh, MinI(53, 64 - sh), 8)
             ELSE MoveBits(m, -sh, 0, 53 + sh, 8)
    IN IF IsNeg(b) THEN NegB(x) ELSE x

(* one element of a tag, as a script sees it *)
ToScalar(t, b) ==
    CASE t = "REAL" -> UNum(RealToDouble(b))
      [] t = "LREAL" -> UNum(b)
      [] OTHER -> UInt(Wide(t, b))
(* what is written of a number v *)
FromScalar(t, v) ==
    LET z == BaseSize(t)
        d == IF v.k = "int" THEN IntToDouble(v.b) ELSE v.b
        i == IF v.k = "int" THEN v.b ELSE DoubleToInt(v.b)
    IN CASE t = "REAL" -> DoubleToReal(d)
         [] t = "LREAL" -> d
         [] OTHER -> SubSeq(i, 1, z)

----------------------------------------------------------------------------
(* Reading: count elements of type t at bit position pos of the bytes d *)
UpToNul(b) == LET f == {i \in DOMAIN b : b[i] = 0} IN IF f = {} THEN b ELSE SubSeq(b, 1, (CHOOSE i \in f : \A j \in f : i <= j) - 1)
RECURSIVE ToLua(_, _, _, _, _)
ToLua(s, t, count, pos, d) ==
    IF t.b = "CDT" THEN
        LET z == TypeSize(s, t)
            ms == s.types[t.n].members
            one(k) == UTab(TLCEval([j \in DOMAIN ms |-> [n |-> ms[j].name, i |-> -1,
                            v |-> ToLua(s, ms[j].t, ms[j].count, pos + 8 * z * k + MemberPos(s, ms, j), d)]]))
        IN IF count = 1 THEN one(0) ELSE UTab(TLCEval([k \in 1..count |-> [n |-> "", i |-> k, v |-> one(k - 1)]]))
    ELSE IF t.b = "BOOL" THEN
        IF count = 1 THEN UBool(BitAt(d, pos) = 1)
        ELSE UTab(TLCEval([k \in 1..count |-> [n |-> "", i |-> k, v |-> UBool(BitAt(d, pos + k - 1) = 1)]]))
    ELSE LET z == BaseSize(t.b)  el(k) == Slice(d, pos \div 8 + z * k, z)
         IN IF count = 1 THEN ToScalar(t.b, el(0))
            ELSE IF t.b = "CHAR" THEN UStr(UpToNul(Slice(d, pos \div 8, count)))
            ELSE UTab(TLCEval([k \in 1..count |-> [n |-> "", i |-> k, v |-> ToScalar(t.b, el(k - 1))]]))

(* Writing: D is [ok, d, m], the bytes and which of their bits are given;    *)
(* count elements of type t from v at bit position pos                       *)
Put(D, pos, b) == [D EXCEPT !.d = Splice(@, pos \div 8, b), !.m = Splice(@, pos \div 8, [i \in 1..Len(b) |-> 255])]
PutBit(D, pos, x) ==
    LET k == pos \div 8 + 1  w == 2 ^ (pos % 8)
    IN [D EXCEPT !.d[k] = (@ - BitAt(D.d, pos) * w) + x * w, !.m[k] = (@ - BitAt(D.m, pos) * w) + w]
Truth(v) == IF v.k = "nil" \/ (v.k = "bool" /\ v.b = <<0>>) THEN 0 ELSE 1
Bad(D) == [D EXCEPT !.ok = FALSE]
RECURSIVE FromLua(_, _, _, _, _, _)
RECURSIVE Members(_, _, _, _, _, _)
RECURSIVE Elements(_, _, _, _, _, _, _)
Members(s, ms, j, pos, v, D) ==
    IF j > Len(ms) \/ ~D.ok THEN D
    ELSE LET x == Field(v, ms[j].name)
         IN Members(s, ms, j + 1, pos, v, IF x.k = "nil" THEN D ELSE FromLua(s, ms[j].t, ms[j].count, pos + MemberPos(s, ms, j), x, D))
Elements(s, t, count, k, pos, v, D) ==
    IF k > count \/ ~D.ok THEN D
    ELSE LET x == Nth(v, k)  z == IF t.b = "BOOL" THEN 1 ELSE 8 * TypeSize(s, t)
         IN Elements(s, t, count, k + 1, pos, v, IF x.k = "nil" THEN D ELSE FromLua(s, t, 1, pos + z * (k - 1), x, D))
FromLua(s, t, count, pos, v, D) ==
    IF count > 1 THEN
        IF v.k = "str" /\ t.b \in OneByte
        THEN Put(D, pos, TLCEval([i \in 1..count |-> IF i <= Len(v.b) THEN v.b[i] ELSE 0]))
        ELSE IF v.k # "tab" THEN Bad(D)
        ELSE Elements(s, t, count, 1, pos, v, D)
    ELSE IF t.b = "CDT" THEN
        IF v.k # "tab" THEN Bad(D) ELSE Members(s, s.types[t.n].members, 1, pos, v, D)
    ELSE IF t.b = "BOOL" THEN PutBit(D, pos, Truth(v))
    ELSE Put(D, pos, FromScalar(t.b, v))

----------------------------------------------------------------------------
(* A tag is named or there's a handle: a.h.idx is -1 where it's named *)
UHandles(s, a) == IF a.h.idx >= 0 THEN {a.h}
                  ELSE IF a.addr.bad THEN {}
                  ELSE UNION {Resolve(s, d, a.addr) : d \in Current(s, a.addr.name)}
(* the library may know the definition from now on *)
Knows(r, s, c, a) == LET cur == IF a.h.idx >= 0 THEN {} ELSE Current(s, a.addr.name)
                     IN IF cur = {} THEN r ELSE [r EXCEPT !.s = SetKn(@, c, cur \cup Kn(@, c))]

Plain(t) == [t EXCEPT !.q = FALSE]
Converted(s, h, v) == FromLua(s, Plain(h.t), h.count, 0, v, [ok |-> TRUE, d |-> Zeros(h.size), m |-> Zeros(h.size)])

URead(s, c, h) ==
    LET r == LRead(s, c, [h |-> h])
    IN IF r.ok THEN [r EXCEPT !.v = ToLua(s, Plain(h.t), h.count, 0, r.v)] ELSE r
UWrite(s, c, h, v) ==
    LET D == Converted(s, h, v)
    IN IF ~TypeKnown(s, h.t) THEN Refused(s)
       ELSE IF ~D.ok THEN Refused(s)
       ELSE IF \A i \in DOMAIN D.m : D.m[i] = 255 THEN LWrite(s, c, [h |-> h, data |-> D.d])
       ELSE LMask(s, c, [h |-> h, data |-> D.d, mask |-> D.m])
UAtomic(s, c, h, a) ==
    LET D == Converted(s, h, a.val)
    IN IF ~TypeKnown(s, h.t) THEN Refused(s)
       ELSE IF ~D.ok THEN Refused(s)
       ELSE LHandle(s, c, "latomic", [h |-> h, aop |-> a.aop, data |-> D.d], 0)
UOvrAdd(s, c, h, v) ==
    LET D == Converted(s, h, v)
    IN IF ~TypeKnown(s, h.t) THEN Refused(s)
       ELSE IF ~D.ok THEN Refused(s)
       ELSE LOvrAdd(s, c, [h |-> h, data |-> D.d])
UEvAdd(s, c, h, a, obs) ==
    LHandle(s, c, "evadd", [h |-> h, et |-> a.et,
                            val |-> IF h.t.b \in {"BOOL", "CDT"} \/ h.t.q THEN << >> ELSE FromScalar(h.t.b, a.val)], obs)

(* name, type and number of a tag *)
UInfo(s, d) == [name |-> d.name, type |-> TName(s, d.t), count |-> d.count]
UGet(s, c, a, obs) ==
    LET cur == IF a.idx >= 0 THEN CurrentIdx(s, a.idx) ELSE Current(s, a.name)
        old == {d \in Kn(s, c) : IF a.idx >= 0 THEN d.idx = a.idx ELSE d.name = a.name}
        fit == {d \in cur \cup old : UInfo(s, d) = obs}
    IN IF fit # {} THEN Done(SetKn(s, c, cur \cup Kn(s, c)), obs, << >>)
       ELSE IF cur = {} THEN Refused(s)
       ELSE Done(s, CHOOSE x \in {UInfo(s, d) : d \in cur} : TRUE, << >>)

With(s, c, a, f(_)) ==
    LET hs == UHandles(s, a)
    IN IF hs = {} THEN Knows(Refused(s), s, c, a) ELSE Knows(f(CHOOSE h \in hs : TRUE), s, c, a)

UHandle(s, c, op, a, obs) ==
    CASE op = "uread" -> With(s, c, a, LAMBDA h : URead(s, c, h))
      [] op = "uwrite" -> With(s, c, a, LAMBDA h : UWrite(s, c, h, a.val))
      [] op = "uatomic" -> With(s, c, a, LAMBDA h : UAtomic(s, c, h, a))
      [] op = "uovradd" -> With(s, c, a, LAMBDA h : UOvrAdd(s, c, h, a.val))
      [] op = "uovrdel" -> With(s, c, a, LAMBDA h : LOvrDel(s, c, [h |-> h]))
      [] op = "uovrset" -> With(s, c, a, LAMBDA h : LHandle(s, c, "ovrset", [idx |-> h.idx, on |-> a.on], 0))
      [] op = "uevadd" -> With(s, c, a, LAMBDA h : UEvAdd(s, c, h, a, obs))
      [] op = "uget" -> UGet(s, c, a, obs)
      [] op = "umapadd" -> With(s, c, a.src, LAMBDA h1 : With(s, c, a.dst, LAMBDA h2 : LHandle(s, c, "mapadd", [src |-> h1, dst |-> h2], obs)))
      [] op = "ubad" -> Refused(s)      \* misuse: an error of the script, and no more
      [] OTHER -> MHandle(s, c, op, a, obs)
=============================================================================
