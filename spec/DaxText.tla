------------------------------ MODULE DaxText ------------------------------
(* Values and their text form.  A text is a sequence of character codes, a   *)
(* value a sequence of bytes.  Both stand for numbers, which are compared as *)
(* such: exact integers and decimal fractions of any size.                   *)
EXTENDS Dax

----------------------------------------------------------------------------
(* Natural numbers of any size: limbs of base 10000, least significant one   *)
(* first, none of them zero at the end.  Integers: [neg, mag].               *)
Limb == 10000
RECURSIVE MulAddFrom(_, _, _, _)
MulAddFrom(m, b, carry, k) ==
    IF k > Len(m) THEN IF carry = 0 THEN << >> ELSE <<carry % Limb>> \o MulAddFrom(m, b, carry \div Limb, k)
    ELSE LET x == m[k] * b + carry IN <<x % Limb>> \o MulAddFrom(m, b, x \div Limb, k + 1)
RECURSIVE Trim(_)
Trim(m) == IF m # << >> /\ m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m) - 1)) ELSE m
MulAdd(m, b, c) == TLCEval(IF b = 0 THEN MulAddFrom(<< >>, 1, c, 1) ELSE MulAddFrom(m, b, c, 1))     \* m * b + c, b < 2^17
Nat0(n) == MulAdd(<< >>, 1, n)
RECURSIVE AddMagFrom(_, _, _, _)
AddMagFrom(a, b, carry, k) ==
    IF k > Len(a) /\ k > Len(b) THEN IF carry = 0 THEN << >> ELSE <<carry>>
    ELSE LET x == (IF k > Len(a) THEN 0 ELSE a[k]) + (IF k > Len(b) THEN 0 ELSE b[k]) + carry
         IN <<x % Limb>> \o AddMagFrom(a, b, x \div Limb, k + 1)
AddMag(a, b) == TLCEval(AddMagFrom(a, b, 0, 1))
RECURSIVE SubMagFrom(_, _, _, _)
SubMagFrom(a, b, borrow, k) ==      \* a >= b
    IF k > Len(a) THEN << >>
    ELSE LET x == a[k] - (IF k > Len(b) THEN 0 ELSE b[k]) - borrow
         IN <<(x + Limb) % Limb>> \o SubMagFrom(a, b, IF x < 0 THEN 1 ELSE 0, k + 1)
SubMag(a, b) == TLCEval(Trim(SubMagFrom(a, b, 0, 1)))
RECURSIVE CmpMagFrom(_, _, _)
CmpMagFrom(a, b, k) == IF k = 0 THEN 0 ELSE IF a[k] < b[k] THEN -1 ELSE IF a[k] > b[k] THEN 1 ELSE CmpMagFrom(a, b, k - 1)
CmpMag(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpMagFrom(a, b, Len(a))

Int0(neg, mag) == [neg |-> neg /\ mag # << >>, mag |-> mag]
CmpInt(x, y) == IF x.neg /\ ~y.neg THEN -1 ELSE IF ~x.neg /\ y.neg THEN 1
                ELSE IF x.neg THEN CmpMag(y.mag, x.mag) ELSE CmpMag(x.mag, y.mag)

RECURSIVE MagOfBytes(_, _)
MagOfBytes(b, k) == IF k > Len(b) THEN << >> ELSE MulAdd(MagOfBytes(b, k + 1), 256, b[k])
(* the integer that the bytes hold *)
IntOf(t, b) == IF t \in Signed /\ b[Len(b)] >= 128 THEN Int0(TRUE, MagOfBytes(NegB(b), 1)) ELSE Int0(FALSE, MagOfBytes(b, 1))

MaxOf(t) == TLCEval(IntOf(t, [k \in 1..BaseSize(t) |-> IF t \in Signed /\ k = BaseSize(t) THEN 127 ELSE 255]))
MinOf(t) == TLCEval(IntOf(t, [k \in 1..BaseSize(t) |-> IF t \in Signed /\ k = BaseSize(t) THEN 128 ELSE 0]))
Limits == TLCEval([t \in BaseTypes \ {"BOOL", "REAL", "LREAL"} |-> [min |-> MinOf(t), max |-> MaxOf(t)]])

----------------------------------------------------------------------------
(* Integers in text: blanks, a sign, digits; 0x before hexadecimal and 0     *)
(* before octal ones                                                         *)
Blank(ch) == ch = 32 \/ (ch >= 9 /\ ch <= 13)
RECURSIVE SkipBlank(_)
SkipBlank(x) == IF x # << >> /\ Blank(x[1]) THEN SkipBlank(Tail(x)) ELSE x
DigitOf(ch) == IF ch >= 48 /\ ch <= 57 THEN ch - 48
               ELSE IF ch >= 97 /\ ch <= 102 THEN ch - 87
               ELSE IF ch >= 65 /\ ch <= 70 THEN ch - 55 ELSE 99
RECURSIVE Digits(_, _, _)
Digits(x, base, m) == IF x = << >> \/ DigitOf(x[1]) >= base THEN [m |-> m, rest |-> x]
                      ELSE Digits(Tail(x), base, MulAdd(m, base, DigitOf(x[1])))
IntIn(text) ==      \* whatever comes after the digits is not looked at
    LET x == SkipBlank(text)
        neg == x # << >> /\ x[1] = 45
        y == IF x # << >> /\ x[1] \in {43, 45} THEN Tail(x) ELSE x
        hex == Len(y) >= 3 /\ y[1] = 48 /\ y[2] \in {88, 120} /\ DigitOf(y[3]) < 16
    IN Int0(neg, IF hex THEN Digits(SubSeq(y, 3, Len(y)), 16, << >>).m
                 ELSE IF y # << >> /\ y[1] = 48 THEN Digits(y, 8, << >>).m
                 ELSE Digits(y, 10, << >>).m)

(* Decimal fractions in text: [neg, d, e] is d * 10^e *)
RECURSIVE Small(_, _)
Small(x, n) == IF x = << >> THEN n ELSE Small(Tail(x), n * 10 + (x[1] - 48))
RECURSIVE TakeDigits(_)
TakeDigits(x) == IF x # << >> /\ IsDigit(x[1]) THEN <<x[1]>> \o TakeDigits(Tail(x)) ELSE << >>
FracIn(text) ==
    LET x == SkipBlank(text)
        neg == x # << >> /\ x[1] = 45
        y == IF x # << >> /\ x[1] \in {43, 45} THEN Tail(x) ELSE x
        int == TakeDigits(y)
        y2 == SubSeq(y, Len(int) + 1, Len(y))
        dot == y2 # << >> /\ y2[1] = 46
        fr == IF dot THEN TakeDigits(Tail(y2)) ELSE << >>
        y3 == IF dot THEN SubSeq(y2, Len(fr) + 2, Len(y2)) ELSE y2
        ex == y3 # << >> /\ y3[1] \in {69, 101}
        y4 == IF ex THEN Tail(y3) ELSE << >>
        eneg == y4 # << >> /\ y4[1] = 45
        y5 == IF y4 # << >> /\ y4[1] \in {43, 45} THEN Tail(y4) ELSE y4
        e == Small(TakeDigits(y5), 0)
    IN [neg |-> neg, some |-> int \o fr # << >>, rest |-> Len(y5) - Len(TakeDigits(y5)) + (IF ex THEN 0 ELSE Len(y3)),
        d |-> Digits(int \o fr, 10, << >>).m, e |-> (IF eneg THEN -e ELSE e) - Len(fr)]

(* floating point values: [neg, m, k] is m * 2^k; edge: the next smaller one is nearer *)
FloatOf(t, b) ==
    LET ex == IF t = "REAL" THEN (b[4] % 128) * 2 + b[3] \div 128 ELSE (b[8] % 128) * 16 + b[7] \div 16
        hid == IF ex = 0 THEN 0 ELSE IF t = "REAL" THEN 128 ELSE 16
        top == IF t = "REAL" THEN (b[3] % 128) + hid ELSE (b[7] % 16) + hid
        low == SubSeq(b, 1, IF t = "REAL" THEN 2 ELSE 6)
        e1 == IF ex = 0 THEN 1 ELSE ex
    IN [neg |-> b[Len(b)] >= 128,
        m |-> MagOfBytes(Append(low, top), 1),
        k |-> IF t = "REAL" THEN e1 - 150 ELSE e1 - 1075,
        even |-> b[1] % 2 = 0,
        edge |-> ex > 1 /\ top = hid /\ \A j \in DOMAIN low : low[j] = 0,
        finite |-> ex # (IF t = "REAL" THEN 255 ELSE 2047)]
RECURSIVE Times2(_, _), Times10(_, _)
Times2(m, k) == IF k = 0 THEN m ELSE IF k >= 13 THEN Times2(MulAdd(m, 8192, 0), k - 13) ELSE MulAdd(m, 2^k, 0)
Times10(m, e) == IF m = << >> THEN m ELSE [j \in 1..(e \div 4) |-> 0] \o MulAdd(m, 10^(e % 4), 0)
Cmp4(f, x, off) ==      \* 4 * d * 10^e compared with (4 * m + off) * 2^k
    LET r0 == MulAdd(f.m, 4, 0)
        r == IF off < 0 THEN SubMag(r0, Nat0(-off)) ELSE AddMag(r0, Nat0(off))
        l == MulAdd(x.d, 4, 0)
        l1 == IF x.e >= 0 THEN Times10(l, x.e) ELSE l
        r1 == IF x.e < 0 THEN Times10(r, -x.e) ELSE r
    IN CmpMag(IF f.k < 0 THEN Times2(l1, -f.k) ELSE l1, IF f.k >= 0 THEN Times2(r1, f.k) ELSE r1)
(* f is the floating point value closest to the decimal fraction x *)
Nearest(f, x) ==
    /\ f.neg = x.neg
    /\ LET up == Cmp4(f, x, 2)
           down == IF f.m = << >> THEN 1 ELSE Cmp4(f, x, IF f.edge THEN -1 ELSE -2)
       IN (up < 0 \/ (up = 0 /\ f.even)) /\ (down > 0 \/ (down = 0 /\ f.even))
InfText(x) == LET y == [j \in DOMAIN x |-> IF x[j] >= 65 /\ x[j] <= 90 THEN x[j] + 32 ELSE x[j]]
              IN y \in {<<105, 110, 102>>, <<45, 105, 110, 102>>}
FloatText(t, b, text) ==
    LET f == FloatOf(t, b)  x == FracIn(text)
    IN IF f.finite THEN x.some /\ x.rest = 0 /\ Nearest(f, x) ELSE InfText(text) /\ f.neg = (text[1] = 45)

----------------------------------------------------------------------------
(* Times: milliseconds since 1970; YYYY-MM-DDThh:mm:ss.mmm *)
DayNumber(y, m, d) ==       \* days from 1970-01-01 in the Gregorian calendar
    LET y1 == IF m <= 2 THEN y - 1 ELSE y
        era == y1 \div 400
        yoe == y1 - era * 400
        doy == (153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5 + d - 1
    IN era * 146097 + yoe * 365 + yoe \div 4 - yoe \div 100 + doy - 719468
IsDate(text) ==     \* the year may have less digits
    LET n == Len(TakeDigits(text))
        x == SubSeq(text, n + 1, Len(text))
    IN /\ n \in 1..4
       /\ Len(x) \in {15, 19}
       /\ \A j \in {2, 3, 5, 6, 8, 9, 11, 12, 14, 15} \cup (16 + 1)..Len(x) : IsDigit(x[j])
       /\ x[1] = 45 /\ x[4] = 45 /\ x[7] = 84 /\ x[10] = 58 /\ x[13] = 58
       /\ Len(x) = 19 => x[16] = 46
DateIn(text) ==
    LET n == Len(TakeDigits(text))
        x == SubSeq(text, n + 1, Len(text))
        f(a, b) == Small(SubSeq(x, a, b), 0)
        day == DayNumber(Small(SubSeq(text, 1, n), 0), f(2, 3), f(5, 6))
        ms == ((f(8, 9) * 60 + f(11, 12)) * 60 + f(14, 15)) * 1000 + (IF Len(x) = 19 THEN f(17, 19) ELSE 0)
        days(z) == Times10(MulAdd(Nat0(z), 8640, 0), 4)
    IN IF day >= 0 THEN Int0(FALSE, AddMag(days(day), Nat0(ms))) ELSE Int0(TRUE, SubMag(days(-day), Nat0(ms)))

----------------------------------------------------------------------------
(* element i of a block of values of base type t *)
ElemAt(t, b, i) == LET z == BaseSize(t) IN SubSeq(b, z * i + 1, z * (i + 1))
Rest(t, b, i) == LET z == BaseSize(t) IN <<SubSeq(b, 1, z * i), SubSeq(b, z * (i + 1) + 1, Len(b))>>

(* dax_val_to_string: a.size is what there's room for *)
ValueText(a, text) ==
    LET t == a.t.b
        b == ElemAt(t, a.buf, a.i)
    IN /\ Len(text) < a.size
       /\ a.size >= 40 =>
            CASE t = "BOOL" -> text = <<48 + BitAt(a.buf, a.i)>>
              [] t = "CHAR" -> text = IF b[1] = 0 THEN << >> ELSE b
              [] t \in Floats -> FloatText(t, b, text)
              [] t = "TIME" -> IntOf(t, b) = IF IsDate(text) THEN DateIn(text) ELSE IntIn(text)
              [] OTHER -> text # << >> /\ IntOf(t, b) = IntIn(text)

(* dax_string_to_val: what it should return and leave in the buffer and the mask *)
Overflow == -24  Underflow == -25
TextValue(a, v) ==
    LET t == a.t.b
        b == ElemAt(t, v.buf, a.i)
        x == IF t = "TIME" /\ IsDate(a.text) THEN DateIn(a.text) ELSE IntIn(a.text)
        lim == Limits[t]
    IN /\ Len(v.buf) = Len(a.buf) /\ Len(v.mask) = Len(a.mask)
       /\ IF t = "BOOL"
          THEN /\ v.rc = 0
               /\ v.buf = MaskSplice(a.buf, a.i \div 8, <<IF IntIn(a.text).mag = << >> THEN 0 ELSE 255>>, <<2^(a.i % 8)>>)
               /\ v.mask = IF a.mask = << >> THEN << >> ELSE MaskSplice(a.mask, a.i \div 8, <<255>>, <<2^(a.i % 8)>>)
          ELSE /\ Rest(t, v.buf, a.i) = Rest(t, a.buf, a.i)
               /\ a.mask # << >> => /\ Rest(t, v.mask, a.i) = Rest(t, a.mask, a.i)
                                    /\ ElemAt(t, v.mask, a.i) = [j \in 1..BaseSize(t) |-> 255]
               /\ IF t = "CHAR" /\ Len(a.text) <= 1 THEN v.rc = 0 /\ b[1] = (IF a.text = << >> THEN 0 ELSE a.text[1])
                  ELSE IF t \in Floats THEN v.rc = 0 /\ FloatText(t, b, a.text)
                  ELSE IF CmpInt(x, lim.min) < 0 THEN v.rc = Underflow /\ IntOf(t, b) = lim.min
                  ELSE IF CmpInt(x, lim.max) > 0 THEN v.rc = Overflow /\ IntOf(t, b) = lim.max
                  ELSE v.rc = 0 /\ IntOf(t, b) = x

(* names of the kinds of events *)
EventNames == <<"", "WRITE", "CHANGE", "SET", "RESET", "EQUAL", "GREATER", "LESS", "DEADBAND", "DELETED">>
EventName(n) == IF n \in 2..10 THEN EventNames[n] ELSE ""
EventNumber(up) == LET k == {n \in 2..10 : EventNames[n] = up} IN IF k = {} THEN 0 ELSE CHOOSE n \in k : TRUE
=============================================================================
