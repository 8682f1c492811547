------------------------------ MODULE DaxBits ------------------------------
(* Bytes, bits and multi byte numbers.  A block of tag data is a sequence of *)
(* bytes (0..255), least significant byte first, as the tag server stores    *)
(* it.  TLC's integers have 32 bits, so wider numbers stay byte sequences.   *)
EXTENDS Integers, Sequences, Bitwise, FiniteSets, TLC

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

Zeros(n) == TLCEval([i \in 1..n |-> 0])

(* The value of bit k (0 = least significant) of a block *)
BitAt(d, k) == (d[(k \div 8) + 1] \div (2^(k % 8))) % 2

(* n bytes of d starting at byte offset off *)
Slice(d, off, n) == TLCEval(SubSeq(d, off + 1, off + n))

(* d with the bytes b written at byte offset off *)
Splice(d, off, b) ==
    TLCEval([i \in 1..Len(d) |->
        IF i > off /\ i <= off + Len(b) THEN b[i - off] ELSE d[i]])

(* d with those bits of b that are set in mask m written at byte offset off *)
MaskSplice(d, off, b, m) ==
    TLCEval([i \in 1..Len(d) |->
        IF i > off /\ i <= off + Len(b)
        THEN (b[i-off] & m[i-off]) | (d[i] & (255 - m[i-off]))
        ELSE d[i]])

(* The bytes that hold nbits bits starting at bit, selected in a mask of size bytes *)
BitMask(bit, nbits, size) ==
    TLCEval([i \in 1..size |->
        LET lo == MaxI(bit, 8*(i-1))
            hi == MinI(bit + nbits, 8*i)
        IN IF hi <= lo THEN 0 ELSE 2^(hi - 8*(i-1)) - 2^(lo - 8*(i-1))])

(* A block of size bytes with bits [db, db+n) taken from bits [sb, sb+n) of d *)
MoveBits(d, sb, db, n, size) ==
    LET bv(k) == IF k >= db /\ k < db + n THEN BitAt(d, k - db + sb) ELSE 0
    IN TLCEval([i \in 1..size |->
         LET o == 8*(i-1) IN
           bv(o) + 2*bv(o+1) + 4*bv(o+2) + 8*bv(o+3) + 16*bv(o+4) + 32*bv(o+5) + 64*bv(o+6) + 128*bv(o+7)])

----------------------------------------------------------------------------
(* Arithmetic on little endian byte sequences of equal length *)
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) ==
    IF i > Len(a) THEN << >>
    ELSE LET t == a[i] + b[i] + carry
         IN <<t % 256>> \o AddFrom(a, b, i + 1, t \div 256)
AddB(a, b) == TLCEval(AddFrom(a, b, 1, 0))

NotB(a) == TLCEval([i \in 1..Len(a) |-> 255 - a[i]])
OneB(n) == TLCEval([i \in 1..n |-> IF i = 1 THEN 1 ELSE 0])
NegB(a) == AddB(NotB(a), OneB(Len(a)))
SubB(a, b) == AddB(a, NegB(b))

(* unsigned comparison: -1, 0 or 1 *)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
    IF i = 0 THEN 0
    ELSE IF a[i] < b[i] THEN -1
    ELSE IF a[i] > b[i] THEN 1
    ELSE CmpFrom(a, b, i - 1)
CmpU(a, b) == CmpFrom(a, b, Len(a))

(* two's complement: flipping the sign bit turns it into an unsigned comparison *)
FlipSign(a) == [a EXCEPT ![Len(a)] = (@ + 128) % 256]
CmpS(a, b) == CmpU(FlipSign(a), FlipSign(b))
IsNeg(a) == a[Len(a)] >= 128

(* IEEE numbers, neither of them NaN: sign and magnitude *)
Magn(a) == [a EXCEPT ![Len(a)] = @ % 128]
CmpF(a, b) ==
    LET ma == Magn(a)  mb == Magn(b)  z == Zeros(Len(a)) IN
    IF ma = z /\ mb = z THEN 0
    ELSE IF IsNeg(a) /\ ~IsNeg(b) THEN -1
    ELSE IF ~IsNeg(a) /\ IsNeg(b) THEN 1
    ELSE IF IsNeg(a) THEN CmpU(mb, ma)
    ELSE CmpU(ma, mb)

----------------------------------------------------------------------------
(* IEEE numbers that are multiples of 1/4 and smaller than 2^15, as the      *)
(* integer that is four times their value.                                   *)
FloatToQ(a) ==
    IF Magn(a) = Zeros(Len(a)) THEN 0
    ELSE IF Len(a) = 4
    THEN LET e == (a[4] % 128) * 2 + (a[3] \div 128)
             m == 8388608 + (a[3] % 128) * 65536 + a[2] * 256 + a[1]
             v == m \div 2^(148 - e)      \* m * 2^(e-150) * 4
         IN IF IsNeg(a) THEN -v ELSE v
    ELSE LET e == (a[8] % 128) * 16 + (a[7] \div 16)
             m == 1048576 + (a[7] % 16) * 65536 + a[6] * 256 + a[5]
             v == m \div 2^(1041 - e)     \* m * 2^(e-1043) * 4
         IN IF IsNeg(a) THEN -v ELSE v

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)

QToFloat(q, size) ==
    IF q = 0 THEN Zeros(size)
    ELSE LET v == IF q < 0 THEN -q ELSE q
             k == Log2(v)
             sgn == IF q < 0 THEN 128 ELSE 0
         IN IF size = 4
            THEN LET e == 125 + k
                     m == (v - 2^k) * 2^(23 - k)
                 IN <<m % 256, (m \div 256) % 256, (m \div 65536) + 128 * (e % 2), sgn + (e \div 2)>>
            ELSE LET e == 1021 + k
                     m == (v - 2^k) * 2^(20 - k)
                 IN <<0, 0, 0, 0, m % 256, (m \div 256) % 256, (m \div 65536) + 16 * (e % 16), sgn + (e \div 16)>>

AbsI(n) == IF n < 0 THEN -n ELSE n

(* a non negative integer below 2^31 as n bytes *)
IntBytes(v, n) == TLCEval([i \in 1..n |-> IF i <= 4 THEN (v \div (256^(i-1))) % 256 ELSE 0])
=============================================================================
