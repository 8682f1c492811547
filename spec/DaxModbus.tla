----------------------------- MODULE DaxModbus ------------------------------
(* The Modbus module: registers and coils that are tags.                     *)
(*                                                                           *)
(* s.mb is the configuration of the module, a sequence of server ports; a    *)
(* port is a sequence of units: [unit, hold, input, coil, disc, rcb, wcb].   *)
(* A table is [idx, size], size 0 where there is none.  The callbacks of a   *)
(* unit are [lo, hi, code, log]: requests for registers from lo to hi are    *)
(* turned down with code (0: none are), and what the callback is told is     *)
(* written to the tag with index log (-1: there is none).                    *)
(* The module is a client of the tag server like any other.                  *)
EXTENDS DaxLib

Word(b, k) == b[k] * 256 + b[k + 1]
Hi(n) == n \div 256
Lo(n) == n % 256
SwapAll(b) == TLCEval([k \in 1..Len(b) |-> IF k % 2 = 1 THEN b[k + 1] ELSE b[k - 1]])

Units(s, port, unit) ==
    LET ns == s.mb[port]
        own == {k \in DOMAIN ns : ns[k].unit = unit}
        any == {k \in DOMAIN ns : ns[k].unit = 0}
    IN {ns[k] : k \in IF own # {} THEN own ELSE any}

ReadCodes == {1, 2, 3, 4}
WriteCodes == {5, 6, 15, 16}
BitCodes == {1, 2, 5, 15}
NoTable == [idx |-> -1, size |-> 0]
Table(n, fc) == CASE fc \in {1, 5, 15} -> n.coil [] fc = 2 -> n.disc [] fc \in {3, 6, 16} -> n.hold [] fc = 4 -> n.input
                  [] OTHER -> NoTable
Limit(fc) == CASE fc \in {1, 2} -> 2000 [] fc \in {3, 4} -> 125 [] fc = 15 -> 1968 [] fc = 16 -> 123 [] OTHER -> 1
BytesFor(fc, count) == IF fc \in BitCodes THEN (count + 7) \div 8 ELSE 2 * count
Denied(cb, at) == IF at >= cb.lo /\ at <= cb.hi THEN cb.code ELSE 0
(* the callback of unit u is told about a request *)
CallBack(s, c, cb, u, fc, at, count) ==
    IF cb.log < 0 THEN Done(s, << >>, << >>)
    ELSE Write(s, c, [idx |-> cb.log, off |-> 0, data |-> IntBytes(u, 4) \o IntBytes(fc, 4) \o IntBytes(at, 4) \o IntBytes(count, 4)])

(* the part of a table's tag that count elements from at on are *)
TablePart(tab, fc, at, count) ==
    IF fc \in BitCodes THEN Part(tab.idx, Base("BOOL"), at, count, 0)
    ELSE Part(tab.idx, Base("UINT"), 16 * at, count, 2)

(* The answer to pdu - unit, function code and data - as pdu, << >>: none *)
MbServe(s, c, port, pdu) ==
    LET ns == Units(s, port, pdu[1])
        n == CHOOSE x \in ns : TRUE
        fc == pdu[2]
        no(r, code) == [r EXCEPT !.ok = TRUE, !.v = <<pdu[1], fc + (IF fc < 128 THEN 128 ELSE 0), code>>]
        same == Done(s, << >>, << >>)
        tab == Table(n, fc)
        at == Word(pdu, 3)
        count == IF fc \in {5, 6} THEN 1 ELSE Word(pdu, 5)
        h == TablePart(tab, fc, at, count)
        short == fc \in ReadCodes \cup WriteCodes /\ Len(pdu) < 6
        r0 == IF fc \in ReadCodes /\ ~short THEN CallBack(s, c, n.rcb, n.unit, fc, at, count) ELSE same
        deny(cb, r) == IF r.ok THEN Denied(cb, at) ELSE 0      \* a callback that fails decides nothing
        bits == fc \in BitCodes
        z == BytesFor(fc, count)
    IN IF Len(pdu) < 2 THEN same
       ELSE IF ns = {} THEN same
       ELSE IF short THEN no(same, 3)
       ELSE IF fc \in ReadCodes /\ deny(n.rcb, r0) # 0 THEN no(r0, deny(n.rcb, r0))
       ELSE IF tab.size = 0 THEN no(r0, 1)
       ELSE IF at + count > tab.size THEN no(r0, 2)
       ELSE IF count < 1 \/ count > Limit(fc) \/ (fc \in {15, 16} /\ Len(pdu) < 7 + z) THEN no(r0, 3)
       ELSE IF fc \in ReadCodes
       THEN LET r == LRead(r0.s, c, [h |-> h])
            IN IF ~r.ok THEN no(r0, 4)
               ELSE [r0 EXCEPT !.ok = TRUE, !.v = <<pdu[1], fc, z>> \o (IF bits THEN SubSeq(r.v, 1, z) ELSE SwapAll(r.v))]
       ELSE LET data == IF fc = 5 THEN <<IF Word(pdu, 5) = 0 THEN 0 ELSE 1>>
                        ELSE IF fc = 6 THEN SwapAll(SubSeq(pdu, 5, 6))
                        ELSE IF fc = 15 THEN SubSeq(pdu, 8, 7 + z)
                        ELSE SwapAll(SubSeq(pdu, 8, 7 + z))
                r == LWrite(s, c, [h |-> h, data |-> Append(data, 0)])
                r2 == CallBack(r.s, c, n.wcb, n.unit, fc, at, count)
            IN IF ~r.ok THEN no(r, 4)
               ELSE IF deny(n.wcb, r2) # 0 THEN no([r2 EXCEPT !.g = r.g \o @], deny(n.wcb, r2))
               ELSE [r2 EXCEPT !.ok = TRUE, !.v = SubSeq(pdu, 1, 6), !.g = r.g \o @]

(* on TCP: transaction, protocol, length, then the rest *)
MbTcp(s, c, a) ==
    LET r == MbServe(s, c, a.port, SubSeq(a.frame, 7, Len(a.frame)))
    IN IF Len(a.frame) > 260 THEN Done(s, <<-1>>, << >>)      \* the connection is closed
       ELSE IF r.v = << >> THEN r
       ELSE [r EXCEPT !.v = SubSeq(a.frame, 1, 4) \o <<Hi(Len(r.v)), Lo(Len(r.v))>> \o @]

----------------------------------------------------------------------------
MHandle(s, c, op, a, obs) ==
    CASE op = "mbconf" -> Done([s EXCEPT !.mb = a.ports], << >>, << >>)
      [] op = "mb" -> MbTcp(s, c, a)
      [] OTHER -> LHandle(s, c, op, a, obs)
=============================================================================
