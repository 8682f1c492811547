------------------------------- MODULE DaxMC -------------------------------
(* Explores Dax exhaustively: every sequence of up to DEPTH requests from    *)
(* the alphabet of a profile, after a fixed prologue.  At every transition   *)
(* the properties are checked in a second formulation: ghost variables keep  *)
(* what the property's statement speaks of (who wrote a bit last, what was   *)
(* pushed and not yet popped, which names were given away, ...) without      *)
(* using the operators of Dax that it is checked against.                    *)
(*                                                                           *)
(* Requests are symbolic: where they need an index or a number they name the *)
(* slot in which an earlier answer was stored.  Each transition is printed   *)
(* (as positions in the alphabet), so that all behaviours can be replayed on *)
(* the real server and judged by DaxTrace.                                   *)
EXTENDS Dax, Json, IOUtils

Profile == IOEnv.PROFILE
Depth == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT = "1"

VARIABLES s, env, gh, hist
vars == <<s, env, gh, hist>>
View == <<s, env>>

----------------------------------------------------------------------------
(* Symbolic requests: [c, op, a, r, out]; r names the slots, out the slot    *)
(* that keeps the answer                                                     *)
O(c, op, a, r, out) == [c |-> c, op |-> op, a |-> a, r |-> r, out |-> out]
NAMES == [n1 |-> <<110, 49>>, n2 |-> <<110, 50>>, n3 |-> <<110, 51>>, n1x |-> <<110, 49, 120>>, N1 |-> <<78, 49>>]
NoAttr == [ret |-> FALSE, own |-> FALSE, ro |-> FALSE]
Ret == [NoAttr EXCEPT !.ret = TRUE]
OwnRo == [NoAttr EXCEPT !.own = TRUE, !.ro = TRUE]
OwnRw == [NoAttr EXCEPT !.own = TRUE]
AddA(c, n, t, count, attr, out) == O(c, "add", [name |-> n, chars |-> NAMES[n], t |-> t, count |-> count, attr |-> attr], << >>, out)
Add(c, n, b, count, out) == AddA(c, n, Base(b), count, NoAttr, out)
AddQ(c, n, b, count, out) == AddA(c, n, [Base(b) EXCEPT !.q = TRUE], count, NoAttr, out)
AddC(c, n, slot, count, out) == O(c, "add", [name |-> n, chars |-> NAMES[n], t |-> Cdt(-1), count |-> count, attr |-> NoAttr], <<slot>>, out)
Del(c, x) == O(c, "del", [idx |-> -1], <<x>>, "")
GetN(c, n) == O(c, "getn", [name |-> n], << >>, "")
GetI(c, x) == O(c, "geti", [idx |-> -1], <<x>>, "")
Rd(c, x, off, size) == O(c, "read", [idx |-> -1, off |-> off, size |-> size], <<x>>, "")
Wr(c, x, off, d) == O(c, "write", [idx |-> -1, off |-> off, data |-> d], <<x>>, "")
MWr(c, x, off, d, m) == O(c, "mwrite", [idx |-> -1, off |-> off, data |-> d, mask |-> m], <<x>>, "")
Hd(byte, bit, count, size, b) == [idx |-> -1, byte |-> byte, bit |-> bit, count |-> count, size |-> size, t |-> Base(b)]
Ev(c, x, h, et, val, out) == O(c, "evadd", [h |-> h, et |-> et, val |-> val], <<x>>, out)
EvD(c, x, e) == O(c, "evdel", [idx |-> -1, id |-> -1], <<x, e>>, "")
EvO(c, x, e, on) == O(c, "evopt", [idx |-> -1, id |-> -1, send |-> on], <<x, e>>, "")
MapA(c, x, h, y, k, out) == O(c, "mapadd", [src |-> h, dst |-> k], <<x, y>>, out)
MapD(c, x, m) == O(c, "mapdel", [idx |-> -1, id |-> -1], <<x, m>>, "")
MapG(c, x, m) == O(c, "mapget", [idx |-> -1, id |-> -1], <<x, m>>, "")
GrpA(c, xs, hs, out) == O(c, "grpadd", [hs |-> hs], xs, out)
GrpD(c, g) == O(c, "grpdel", [id |-> -1], <<g>>, "")
GrpR(c, g) == O(c, "grpread", [id |-> -1], <<g>>, "")
GrpW(c, g, d) == O(c, "grpwrite", [id |-> -1, data |-> d], <<g>>, "")
At(c, x, h, aop, d) == O(c, "atomic", [h |-> h, aop |-> aop, data |-> d], <<x>>, "")
OvA(c, x, off, d, m) == O(c, "ovradd", [idx |-> -1, off |-> off, data |-> d, mask |-> m], <<x>>, "")
OvD(c, x, off, m) == O(c, "ovrdel", [idx |-> -1, off |-> off, mask |-> m], <<x>>, "")
OvS(c, x, on) == O(c, "ovrset", [idx |-> -1, on |-> on], <<x>>, "")
OvG(c, x, off, size) == O(c, "ovrget", [idx |-> -1, off |-> off, size |-> size], <<x>>, "")
Con(c) == O(c, "connect", 0, << >>, "")
Reg(c, n, out) == O(c, "register", [name |-> n, chars |-> NAMES[n], excluded |-> FALSE], << >>, out)
Dis(c) == O(c, "disconnect", 0, << >>, "")
M(n, low, t, count) == [name |-> n, low |-> low, chars |-> NAMES[n], tlow |-> t, count |-> count]
CdtN(c, n, low, ms, out) == O(c, "cdtnew", [name |-> n, low |-> low, chars |-> NAMES[n], bad |-> FALSE, members |-> ms], << >>, out)
CdtG(c, low) == O(c, "cdtn", [low |-> low], << >>, "")

----------------------------------------------------------------------------
(* The profiles: prologue and alphabet *)
Two == <<Con("A"), Con("B"), Reg("A", "n1", "mA"), Reg("B", "n2", "mB")>>

Prologue ==
    CASE Profile = "data" -> Two
      [] Profile = "tags" -> Two
      [] Profile = "types" -> Two
      [] Profile = "events" -> Two \o <<Add("A", "n1", "SINT", 3, "x"), Add("A", "n2", "BOOL", 10, "y")>>
      [] Profile = "delivery" -> Two \o <<Add("A", "n1", "INT", 2, "x")>>
      [] Profile = "maps" -> Two \o <<Add("A", "n1", "UINT", 2, "x"), Add("A", "n2", "BOOL", 12, "y"), Add("A", "n3", "BYTE", 3, "z")>>
      [] Profile = "queues" -> Two \o <<AddQ("A", "n1", "INT", 1, "q")>>
      [] Profile = "groups" -> Two \o <<Add("A", "n1", "INT", 2, "x"), Add("A", "n2", "BOOL", 10, "y")>>
      [] Profile = "atomic" -> Two \o <<Add("A", "n1", "SINT", 2, "x"), Add("A", "n2", "BOOL", 11, "y"), Add("A", "n3", "UINT", 1, "z")>>
      [] Profile = "overrides" -> Two \o <<Add("A", "n1", "INT", 2, "x")>>
      [] Profile = "protect" -> Two \o <<AddA("A", "n1", Base("INT"), 1, OwnRo, "x"), Add("A", "n2", "INT", 1, "y")>>
      [] Profile = "modules" -> <<Con("A"), Con("B"), Con("C")>>
      [] Profile = "retain" -> Two

Alphabet ==
    CASE Profile = "data" ->
        <<Add("A", "n1", "INT", 2, "x"), Add("B", "n1", "INT", 3, "x"), Add("A", "n2", "BYTE", 3, "y"), Del("B", "x"),
          Wr("A", "x", 0, <<1, 2>>), Wr("B", "x", 1, <<255, 7>>), Wr("A", "x", 3, <<9>>), Wr("B", "x", 3, <<9, 8>>), Wr("A", "x", 0, <<1, 1, 1, 1, 1, 1>>),
          MWr("A", "x", 0, <<170, 85>>, <<15, 240>>), MWr("B", "x", 2, <<255>>, <<129>>),
          Wr("B", "y", 0, <<4, 5, 6>>), Rd("A", "x", 0, 4), Rd("B", "x", 1, 2), Rd("A", "x", 4, 2), Rd("B", "y", 1, 3)>>
      [] Profile = "tags" ->
        <<Add("A", "n1", "INT", 2, "x"), Add("B", "n2", "BOOL", 9, "y"), Add("B", "n1", "INT", 4, "x"), Add("A", "n1", "BYTE", 2, "x"), Add("A", "N1", "INT", 1, "z"),
          Add("B", "n1x", "INT", 1, "z"), AddA("A", "n3", Base("SINT"), 1, OwnRw, "w"), Del("A", "x"), Del("B", "y"), Del("B", "z"),
          GetN("A", "n1"), GetN("B", "n2"), GetI("B", "x"), GetI("A", "y"), GetI("A", "z"), Dis("A"), Con("A")>>
      [] Profile = "types" ->
        <<CdtN("A", "n1", "n1", <<M("n1", "n1", "bool", 3), M("n2", "n2", "int", 1), M("n3", "n3", "bool", 9)>>, "t"),
          CdtN("B", "n1", "n1", <<M("n1", "n1", "bool", 3), M("n2", "n2", "int", 1)>>, "t"),
          CdtN("B", "N1", "n1", <<M("n1", "n1", "bool", 3), M("n2", "n2", "int", 1), M("n3", "n3", "bool", 9)>>, "t"),
          CdtN("B", "n2", "n2", <<M("n1", "n1", "byte", 1), M("n2", "n2", "n1", 2), M("n3", "n3", "bool", 1)>>, "u"),
          CdtN("A", "n2", "n2", <<M("n1", "n1", "bool", 1), M("n2", "n2", "bool", 7), M("n3", "n3", "bool", 2)>>, "u"),
          CdtN("A", "n3", "n3", <<M("n1", "n1", "n2", 2), M("n2", "n2", "n1", 1)>>, "v"),
          CdtN("A", "n3", "n3", <<M("n1", "n1", "int", 2), M("N1", "n1", "byte", 1)>>, "v"),
          CdtG("B", "n1"), CdtG("A", "n2"), CdtG("A", "n3"), AddC("A", "n1", "t", 2, "x"), AddC("B", "n2", "u", 3, "y"), AddC("B", "n3", "v", 1, "z"),
          GetN("A", "n1"), Wr("A", "x", 0, <<255, 1, 2, 3>>), Rd("B", "x", 0, 10), Rd("A", "y", 3, 9)>>
      [] Profile = "events" ->
        <<Ev("A", "x", Hd(0, 0, 3, 3, "SINT"), "CHANGE", << >>, "e"), Ev("B", "x", Hd(1, 0, 2, 2, "SINT"), "GREATER", <<2>>, "f"), Ev("A", "x", Hd(0, 0, 2, 2, "SINT"), "LESS", <<255>>, "f"),
          Ev("B", "x", Hd(0, 0, 3, 3, "SINT"), "EQUAL", <<5>>, "e"), Ev("B", "x", Hd(0, 0, 2, 2, "SINT"), "DEADBAND", <<3>>, "e"), Ev("A", "x", Hd(2, 0, 1, 1, "SINT"), "WRITE", << >>, "f"),
          Ev("A", "y", Hd(0, 6, 4, 2, "BOOL"), "SET", << >>, "g"), Ev("B", "y", Hd(0, 1, 3, 1, "BOOL"), "RESET", << >>, "g"), Ev("B", "y", Hd(0, 7, 2, 2, "BOOL"), "CHANGE", << >>, "g"),
          Wr("B", "x", 0, <<5>>), Wr("A", "x", 1, <<3, 254>>), Wr("A", "x", 0, <<0, 0, 0>>), MWr("B", "x", 2, <<255>>, <<5>>),
          Wr("A", "y", 0, <<255, 3>>), MWr("B", "y", 0, <<0>>, <<66>>), Wr("B", "y", 1, <<2>>), Wr("A", "y", 0, <<0>>)>>
      [] Profile = "delivery" ->
        <<Ev("A", "x", Hd(0, 0, 2, 4, "INT"), "WRITE", << >>, "e"), Ev("B", "x", Hd(2, 0, 1, 2, "INT"), "WRITE", << >>, "f"), Ev("B", "x", Hd(0, 0, 2, 4, "INT"), "CHANGE", << >>, "g"),
          Ev("A", "x", Hd(0, 0, 1, 2, "INT"), "DELETED", << >>, "h"), EvO("A", "x", "e", TRUE), EvO("B", "x", "f", TRUE), EvO("B", "x", "e", TRUE), EvO("A", "x", "e", FALSE), EvD("A", "x", "e"), EvD("A", "x", "f"), EvD("B", "x", "g"),
          Wr("A", "x", 0, <<1, 0>>), Wr("B", "x", 2, <<7, 7>>), Del("B", "x"), Dis("B"), Con("B"), Reg("B", "n2", "mB"), Add("B", "n1", "INT", 2, "x")>>
      [] Profile = "maps" ->
        <<MapA("A", "x", Hd(0, 0, 1, 2, "UINT"), "z", Hd(0, 0, 2, 2, "BYTE"), "m"), MapA("B", "x", Hd(2, 0, 1, 2, "UINT"), "z", Hd(1, 0, 2, 2, "BYTE"), "n"),
          MapA("A", "y", Hd(0, 3, 6, 2, "BOOL"), "x", Hd(1, 2, 6, 1, "BOOL"), "o"), MapA("B", "z", Hd(0, 0, 1, 1, "BYTE"), "y", Hd(0, 1, 8, 2, "BOOL"), "p"),
          MapA("B", "y", Hd(0, 0, 3, 1, "BOOL"), "z", Hd(2, 4, 4, 1, "BOOL"), "n"), MapA("A", "z", Hd(0, 0, 1, 1, "BYTE"), "x", Hd(0, 0, 1, 2, "UINT"), "m"), MapA("A", "x", Hd(0, 0, 2, 4, "UINT"), "z", Hd(0, 0, 3, 3, "BYTE"), "m"),
          Wr("A", "x", 0, <<165, 90>>), Wr("B", "x", 2, <<255>>), MWr("B", "y", 0, <<255, 0>>, <<124, 255>>), Wr("A", "y", 1, <<15>>), Wr("B", "z", 0, <<129, 126, 60>>), At("A", "x", Hd(0, 0, 1, 2, "UINT"), "NOT", <<0, 0>>),
          MapD("B", "x", "m"), MapD("A", "y", "o"), MapG("A", "x", "m"), Del("A", "z"), Ev("B", "z", Hd(0, 0, 3, 3, "BYTE"), "CHANGE", << >>, "e")>>
      [] Profile = "queues" ->
        <<Wr("A", "q", 0, <<1, 0>>), Wr("B", "q", 0, <<2, 0>>), Wr("A", "q", 0, <<3>>), Wr("A", "q", 1, <<3, 3>>), Rd("A", "q", 0, 2), Rd("B", "q", 0, 2), Rd("B", "q", 0, 1),
          Del("A", "q"), AddQ("B", "n1", "INT", 1, "q"), AddQ("B", "n2", "BYTE", 3, "r"), Wr("B", "r", 0, <<7, 8, 9>>), Rd("A", "r", 0, 3), Ev("B", "q", Hd(0, 0, 1, 2, "INT"), "WRITE", << >>, "e"),
          GrpA("A", <<"q">>, <<Hd(0, 0, 1, 2, "INT")>>, "g"), GrpR("A", "g"), GrpW("A", "g", <<9, 9>>), MWr("A", "q", 0, <<1, 1>>, <<255, 255>>)>>
      [] Profile = "groups" ->
        <<GrpA("A", <<"x", "y">>, <<Hd(2, 0, 1, 2, "INT"), Hd(0, 3, 5, 1, "BOOL")>>, "g"), GrpA("A", <<"y", "x", "x">>, <<Hd(0, 6, 3, 2, "BOOL"), Hd(0, 0, 2, 4, "INT"), Hd(1, 0, 2, 2, "BYTE")>>, "h"), GrpA("B", <<"x">>, <<Hd(0, 0, 1, 2, "INT")>>, "k"),
          GrpR("A", "g"), GrpR("A", "h"), GrpR("B", "g"), GrpW("A", "g", <<1, 2, 255>>), GrpW("A", "g", <<1, 2>>), GrpW("A", "h", <<129, 2, 1, 2, 3, 4, 7, 8>>), GrpW("B", "k", <<5, 6>>), GrpD("A", "g"), GrpD("B", "k"),
          Wr("B", "x", 0, <<9, 8, 7, 6>>), Wr("A", "y", 0, <<240, 3>>), Del("B", "x"), Add("A", "n1", "INT", 2, "x"), Dis("A"), Con("A"), Reg("A", "n1", "mA")>>
      [] Profile = "atomic" ->
        <<At("A", "x", Hd(0, 0, 1, 1, "SINT"), "INC", <<1>>), At("B", "x", Hd(1, 0, 1, 1, "SINT"), "DEC", <<100>>), At("A", "z", Hd(0, 0, 1, 2, "UINT"), "INC", <<255, 255>>), At("B", "z", Hd(0, 0, 1, 2, "UINT"), "DEC", <<2, 1>>),
          At("A", "y", Hd(0, 6, 4, 2, "BOOL"), "NOT", <<0, 0>>), At("B", "y", Hd(0, 2, 7, 2, "BOOL"), "OR", <<85, 0>>), At("A", "y", Hd(1, 0, 3, 1, "BOOL"), "XOR", <<5>>), At("B", "y", Hd(0, 7, 2, 2, "BOOL"), "NAND", <<2, 0>>),
          At("A", "x", Hd(0, 0, 2, 2, "SINT"), "AND", <<15, 243>>), At("B", "x", Hd(0, 0, 2, 2, "SINT"), "XNOR", <<60, 60>>), At("B", "z", Hd(0, 0, 1, 2, "UINT"), "NOR", <<3, 128>>), At("A", "x", Hd(0, 0, 2, 2, "SINT"), "INC", <<1, 1>>), At("A", "y", Hd(0, 0, 1, 1, "BOOL"), "INC", <<1>>),
          Wr("B", "x", 0, <<127, 128>>), Wr("A", "y", 0, <<195, 5>>), Ev("B", "x", Hd(0, 0, 2, 2, "SINT"), "CHANGE", << >>, "e"), MapA("A", "y", Hd(0, 0, 8, 1, "BOOL"), "x", Hd(1, 0, 8, 1, "BOOL"), "m")>>
      [] Profile = "overrides" ->
        <<OvA("A", "x", 0, <<255, 15>>, <<240, 255>>), OvA("B", "x", 1, <<1, 2>>, <<3, 3>>), OvA("A", "x", 3, <<1, 1>>, <<1, 1>>), OvD("B", "x", 0, <<240>>), OvD("A", "x", 0, <<255, 255, 255, 255>>), OvD("A", "x", 1, <<254, 2>>), OvS("A", "x", TRUE), OvS("B", "x", FALSE),
          OvG("A", "x", 0, 4), OvG("B", "x", 1, 2), Wr("A", "x", 0, <<1, 2, 3, 4>>), MWr("B", "x", 1, <<255, 0>>, <<1, 255>>), Rd("B", "x", 0, 4), Rd("A", "x", 1, 2), Del("A", "x"), Add("B", "n1", "INT", 3, "x"), Ev("A", "x", Hd(0, 0, 2, 4, "INT"), "CHANGE", << >>, "e")>>
      [] Profile = "protect" ->
        <<Wr("A", "x", 0, <<1, 2>>), Wr("B", "x", 0, <<3, 4>>), MWr("B", "x", 0, <<5>>, <<255>>), MWr("A", "x", 0, <<5>>, <<255>>), At("B", "x", Hd(0, 0, 1, 2, "INT"), "NOT", <<0, 0>>), Del("B", "x"),
          AddA("B", "n1", Base("INT"), 1, OwnRo, "x"), AddA("B", "n2", Base("INT"), 1, OwnRw, "y"), AddA("A", "n2", Base("INT"), 2, NoAttr, "y"), MapA("B", "y", Hd(0, 0, 1, 2, "INT"), "x", Hd(0, 0, 1, 2, "INT"), "m"), Wr("B", "y", 0, <<7, 7>>),
          GrpA("B", <<"x">>, <<Hd(0, 0, 1, 2, "INT")>>, "g"), GrpW("B", "g", <<8, 8>>), Wr("A", "mA", 12, <<1>>), Wr("B", "mA", 12, <<2>>), Wr("B", "mA", 77, <<5>>), Wr("A", "mA", 8, <<9, 9, 9, 9, 9>>), At("A", "mA", Hd(12, 0, 1, 1, "BOOL"), "NOT", <<0>>),
          Dis("A"), Con("A"), Add("B", "n1", "INT", 1, "x")>>
      [] Profile = "modules" ->
        <<Reg("A", "n1", "mA"), Reg("A", "n2", "mA"), Reg("B", "n1", "mB"), Reg("C", "n1", "mC"), Reg("C", "n1x", "mC"), Dis("A"), Dis("B"), Con("A"), Con("B"), Wr("A", "mA", 13, <<65, 66>>), Wr("C", "mA", 77, <<3>>),
          Rd("A", "mB", 0, 78), GetI("B", "mA"), GetI("A", "mC"), AddA("A", "n1", Base("INT"), 1, OwnRw, "x"), Del("B", "mA")>>
      [] Profile = "retain" ->
        <<AddA("A", "n1", Base("INT"), 2, Ret, "x"), AddA("B", "n1", Base("INT"), 3, Ret, "x"), Add("A", "n1", "INT", 2, "x"), AddA("B", "n2", Base("BOOL"), 10, Ret, "y"), AddA("A", "n3", Base("SINT"), 1, [Ret EXCEPT !.own = TRUE], "z"),
          Wr("A", "x", 1, <<1, 2>>), MWr("B", "x", 0, <<255, 255>>, <<15, 240>>), Wr("B", "y", 0, <<85, 2>>), At("A", "y", Hd(0, 6, 4, 2, "BOOL"), "NOT", <<0, 0>>), Wr("A", "z", 0, <<200>>), MapA("B", "z", Hd(0, 0, 1, 1, "SINT"), "x", Hd(3, 0, 1, 1, "BYTE"), "m"),
          OvA("A", "x", 0, <<255>>, <<255>>), OvS("A", "x", TRUE), Del("A", "x"), Del("B", "y"), Dis("A"), Con("A"), O("-", "restart", 0, << >>, "")>>

----------------------------------------------------------------------------
(* Making a symbolic request concrete *)
Slot(e, x) == IF x \in DOMAIN e THEN e[x] ELSE -1
Concrete(e, o) ==
    LET id(k) == Slot(e, o.r[k]) IN
    IF o.r = << >> THEN o.a
    ELSE CASE o.op \in {"evadd", "atomic"} -> [o.a EXCEPT !.h.idx = id(1)]
           [] o.op \in {"evdel", "evopt", "mapdel", "mapget"} -> [o.a EXCEPT !.idx = id(1), !.id = id(2)]
           [] o.op = "mapadd" -> [o.a EXCEPT !.src.idx = id(1), !.dst.idx = id(2)]
           [] o.op = "grpadd" -> [o.a EXCEPT !.hs = TLCEval([k \in DOMAIN @ |-> [@[k] EXCEPT !.idx = id(k)]])]
           [] o.op \in {"grpread", "grpwrite", "grpdel"} -> [o.a EXCEPT !.id = id(1)]
           [] o.op = "add" -> [o.a EXCEPT !.t = Cdt(id(1))]
           [] OTHER -> [o.a EXCEPT !.idx = id(1)]

SmallestNot(S) == CHOOSE k \in 1..(Cardinality(S) + 1) : k \notin S /\ \A j \in 1..(k - 1) : j \in S
ModChars(n, k) == <<95, 109>> \o NAMES[n] \o (IF k = 0 THEN << >> ELSE <<48 + k>>)
ModName(n, k) == "_m" \o n \o (IF k = 0 THEN "" ELSE ToString(k))
Live0(x, idx) == idx \in DOMAIN x.tags /\ x.tags[idx].live
(* the implementation's choice, where it has one *)
Obs(x, c, op, a, g) ==
    CASE op = "add" -> x.top + 1
      [] op = "cdtnew" -> Cdt(Cardinality(DOMAIN x.types))
      [] op = "evadd" -> IF Live0(x, a.h.idx) THEN SmallestNot({x.tags[a.h.idx].evs[i].id : i \in DOMAIN x.tags[a.h.idx].evs}) ELSE 0
      [] op = "mapadd" -> IF Live0(x, a.src.idx) THEN SmallestNot({x.tags[a.src.idx].maps[i].id : i \in DOMAIN x.tags[a.src.idx].maps}) ELSE 0
      [] op = "grpadd" -> IF c \in DOMAIN x.cl THEN SmallestNot(DOMAIN x.cl[c].grp) ELSE 0
      [] op = "register" ->
           LET y == IF x.cl[c].reg THEN Leave(x, c)[1] ELSE x
               k == CHOOSE j \in 0..9 : ByName(y, ModName(a.name, j)) = {} /\ \A i \in 0..(j - 1) : ByName(y, ModName(a.name, i)) # {}
           IN [has |-> TRUE, idx |-> x.top + 1, name |-> ModName(a.name, k), chars |-> ModChars(a.name, k), timeok |-> TRUE,
               data |-> Zeros(8) \o IntBytes(g.regs, 4) \o Zeros(66)]
      [] OTHER -> 0

(* The server ends and comes back: what was to be retained is there again,   *)
(* nothing else                                                              *)
RestartOf(x) ==
    LET kept == SetToSortSeq({k \in LiveSet(x) : k > 10 /\ x.tags[k].ret}, <)
        tg == [k \in 11..(10 + Len(kept)) |->
                 LET o == x.tags[kept[k - 10]]
                 IN [NewTag(x, o.name, o.chars, o.t, o.count, NoClient, "data") EXCEPT !.data = o.data, !.ret = TRUE]]
        n == 10 + Len(kept)
    IN [Fresh EXCEPT !.types = x.types, !.top = n, !.cnt = n + 1,
          !.tags = [(@ @@ tg) EXCEPT ![TagCountIdx].data = IntBytes(n + 1, 4), ![LastIndexIdx].data = IntBytes(n, 4)],
          !.cl = ("A" :> FreshClient) @@ ("B" :> FreshClient)]

Act(x, c, op, a, g) == IF op = "restart" THEN Done(RestartOf(x), << >>, << >>)
                       ELSE Handle(x, c, op, a, Obs(x, c, op, a, g))
Possible(x, o) ==      \* the transport allows it
    CASE o.op = "connect" -> o.c \notin DOMAIN x.cl
      [] o.op = "restart" -> TRUE
      [] OTHER -> o.c \in DOMAIN x.cl

NewEnv(e, o, r, x1) ==
    IF o.op = "restart"      \* the numbers are given anew: found again by name
    THEN [k \in {"x", "y", "z"} |->
            LET f == ByName(x1, CASE k = "x" -> "n1" [] k = "y" -> "n2" [] k = "z" -> "n3")
            IN IF f = {} THEN -1 ELSE CHOOSE i \in f : TRUE]
    ELSE IF ~r.ok \/ o.out = "" THEN e
    ELSE (o.out :> (IF o.op = "cdtnew" THEN r.v.n ELSE IF o.op = "register" THEN x1.cl[o.c].tag ELSE r.v)) @@ e

----------------------------------------------------------------------------
(* Ghosts *)
(* regs   number of registrations so far                                     *)
(* log    for each index the accepted changes, as <<off, data, mask>>         *)
(* name   which index a name stands for; given: all indexes ever given       *)
(* def    accepted type definitions                                          *)
(* touch  for each event <<idx, id>>: the positions (in elements or bits)     *)
(*        evaluated since it was created                                     *)
(* subs   <<idx, id>> -> [c, et, byte, size, opt]                             *)
(* fifo   for each queue what is in it                                       *)
(* grp    <<client, id>> -> members                                          *)
(* ovr    for each index a function bit -> 0/1                                *)
(* prot   for each index [ro, own, owner]                                    *)
(* mods   client -> index of its module tag                                  *)
(* kept   names to be retained                                               *)
Ghost0 == [regs |-> 1, log |-> << >>, name |-> << >>, given |-> 0..10, def |-> << >>, touch |-> << >>, subs |-> << >>, fifo |-> << >>,
           grp |-> << >>, ovr |-> << >>, prot |-> << >>, mods |-> << >>, kept |-> << >>]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == (k :> v) @@ f
Drop(f, S) == TLCEval([k \in DOMAIN f \ S |-> f[k]])
Ones(n) == TLCEval([i \in 1..n |-> 255])

(* tags that go away with this request *)
Gone(g, o, a, r) ==
    IF ~r.ok THEN {}
    ELSE CASE o.op = "del" -> {a.idx}
           [] o.op \in {"disconnect"} -> {i \in DOMAIN g.prot : g.prot[i].own /\ g.prot[i].owner = o.c} \cup {g.mods[c] : c \in DOMAIN g.mods \cap {o.c}}
           [] o.op = "register" -> IF o.c \in DOMAIN g.mods THEN {i \in DOMAIN g.prot : g.prot[i].own /\ g.prot[i].owner = o.c} \cup {g.mods[o.c]} ELSE {}
           [] OTHER -> {}

LogOf(g, o, a, r, x) ==     \* explicit changes by the client
    IF ~r.ok THEN g.log
    ELSE CASE o.op = "write" /\ a.idx \notin DOMAIN g.fifo -> Put(g.log, a.idx, Append(Get(g.log, a.idx, << >>), <<a.off, a.data, Ones(Len(a.data))>>))
           [] o.op = "mwrite" -> Put(g.log, a.idx, Append(Get(g.log, a.idx, << >>), <<a.off, a.data, a.mask>>))
           [] OTHER -> g.log
NewGhost(g, o, a, r, x) ==     \* x: the state before
    LET gone == Gone(g, o, a, r)
        idx == IF o.op = "add" /\ r.ok THEN r.v ELSE -1
        fresh == idx >= 0 /\ a.name \notin DOMAIN g.name
        mod == IF o.op = "register" /\ r.ok THEN r.s.cl[o.c].tag ELSE -1
        old == Get(g.prot, idx, [ro |-> FALSE, own |-> FALSE, owner |-> "-"])
        leaving == (o.op = "disconnect" \/ (o.op = "register" /\ o.c \in DOMAIN g.mods)) /\ r.ok
        q == o.op = "write" /\ r.ok /\ a.idx \in DOMAIN g.fifo
        qr == o.op = "read" /\ r.ok /\ a.idx \in DOMAIN g.fifo
        gm == Get(g.grp, <<o.c, IF o.op \in {"grpread", "grpwrite"} THEN a.id ELSE -1>>, << >>)
        qof == IF gm = << >> THEN -1 ELSE gm[1].idx
        g1 == [g EXCEPT
          !.regs = IF o.op = "register" THEN @ + 1 ELSE @,
          !.log = Drop(LogOf(g, o, a, r, x), gone),
          !.given = @ \cup (IF idx >= 0 THEN {idx} ELSE {}) \cup (IF mod >= 0 THEN {mod} ELSE {}),
          !.name = LET f == Drop(@, {n \in DOMAIN @ : @[n] \in gone}) IN IF idx >= 0 THEN Put(f, a.name, idx) ELSE f,
          !.def = IF o.op = "cdtnew" /\ r.ok /\ ~ \E d \in DOMAIN @ : @[d].low = a.low THEN Append(@, [low |-> a.low, n |-> r.v.n, members |-> a.members]) ELSE @,
          !.fifo = LET f == Drop(@, gone) IN
                   IF fresh /\ a.t.q THEN Put(f, idx, << >>)
                   ELSE IF q THEN [f EXCEPT ![a.idx] = Append(@, a.data)]
                   ELSE IF qr THEN [f EXCEPT ![a.idx] = Tail(@)]
                   ELSE IF o.op = "grpread" /\ r.ok /\ qof \in DOMAIN f THEN [f EXCEPT ![qof] = Tail(@)]
                   ELSE IF o.op = "grpwrite" /\ r.ok /\ qof \in DOMAIN f THEN [f EXCEPT ![qof] = Append(@, a.data)] ELSE f,
          !.grp = LET f == IF leaving THEN Drop(@, {k \in DOMAIN @ : k[1] = o.c}) ELSE @ IN
                  IF o.op = "grpadd" /\ r.ok THEN Put(f, <<o.c, r.v>>, a.hs)
                  ELSE IF o.op = "grpdel" /\ r.ok THEN Drop(f, {<<o.c, a.id>>}) ELSE f,
          !.ovr = LET f == Drop(@, gone) IN
                  IF o.op = "ovradd" /\ r.ok
                  THEN LET new == {b \in (8*a.off)..(8*(a.off + Len(a.data)) - 1) : BitAt(a.mask, b - 8*a.off) = 1}
                           cur == Get(f, a.idx, << >>)
                       IN Put(f, a.idx, [b \in new \cup DOMAIN cur |-> IF b \in new THEN BitAt(a.data, b - 8*a.off) ELSE cur[b]])
                  ELSE IF o.op = "ovrdel" /\ r.ok
                  THEN LET del == {b \in (8*a.off)..(8*(a.off + Len(a.mask)) - 1) : BitAt(a.mask, b - 8*a.off) = 1}
                       IN Put(f, a.idx, Drop(f[a.idx], del)) ELSE f,
          !.prot = LET f == Drop(@, gone) IN
                   IF idx >= 0 THEN Put(f, idx, IF a.attr.ret THEN old
                                                ELSE IF a.attr.own THEN [ro |-> old.ro \/ a.attr.ro, own |-> TRUE, owner |-> o.c] ELSE old) ELSE f,
          !.mods = LET f == IF leaving THEN Drop(@, {o.c}) ELSE @ IN IF mod >= 0 THEN Put(f, o.c, mod) ELSE f,
          !.kept = LET f == Drop(@, {n \in DOMAIN @ : n \in DOMAIN g.name /\ g.name[n] \in gone}) IN
                   IF idx >= 0 /\ a.attr.ret THEN Put(f, a.name, 1) ELSE f,
          !.subs = LET f == Drop(Drop(@, {k \in DOMAIN @ : k[1] \in gone}), IF leaving THEN {k \in DOMAIN @ : @[k].c = o.c} ELSE {}) IN
                   IF o.op = "evadd" /\ r.ok THEN Put(f, <<a.h.idx, r.v>>, [c |-> o.c, et |-> a.et, byte |-> a.h.byte, size |-> a.h.size, opt |-> FALSE, h |-> a.h, val |-> a.val])
                   ELSE IF o.op = "evdel" /\ r.ok THEN Drop(f, {<<a.idx, a.id>>})
                   ELSE IF o.op = "evopt" /\ r.ok THEN [f EXCEPT ![<<a.idx, a.id>>].opt = a.send] ELSE f]
    IN IF o.op # "restart" THEN g1
       ELSE LET nm == [n \in DOMAIN g.kept |-> CHOOSE i \in DOMAIN r.s.tags : r.s.tags[i].live /\ r.s.tags[i].name = n]
            IN [Ghost0 EXCEPT !.regs = g.regs, !.name = nm, !.given = 0..r.s.top, !.kept = g.kept, !.def = g.def,
                  !.prot = [i \in {nm[n] : n \in DOMAIN nm} |-> [ro |-> FALSE, own |-> FALSE, owner |-> "-"]]]

----------------------------------------------------------------------------
(* The properties: x the state before, g the ghost before, a the concrete    *)
(* request, r what it did, h the ghost afterwards.  y == r.s                 *)
Users(x) == {i \in LiveSet(x) : i > 10}
DataTags(x) == {i \in Users(x) : x.tags[i].kind = "data"}
Bit(d, b) == IF d[(b \div 8) + 1] < 0 THEN 0 ELSE (d[(b \div 8) + 1] \div 2 ^ (b % 8)) % 2

WellFormed(y) ==
    /\ \A i \in DOMAIN y.tags : i <= y.top
    /\ y.cnt = Cardinality(LiveSet(y))
    /\ \A i \in LiveSet(y) : LET t == y.tags[i] IN
         /\ t.kind = "data" => Len(t.data) = TagBytes(y, t.t, t.count)
         /\ t.kind # "queue" => t.q = << >>
         /\ \A k \in DOMAIN t.q : Len(t.q[k]) = TagBytes(y, t.t, t.count)
         /\ t.om # << >> => Len(t.om) = Len(t.data) /\ Len(t.od) = Len(t.data)
         /\ t.oset => t.om # << >>
         /\ \A k \in DOMAIN t.evs : t.evs[k].c \in DOMAIN y.cl
         /\ \A k, j \in DOMAIN t.evs : k # j => t.evs[k].id # t.evs[j].id
         /\ t.own => t.owner \in DOMAIN y.cl
         /\ ~(t.ro /\ i > 10 /\ ~t.own)
    /\ \A i, j \in LiveSet(y) : i # j => y.tags[i].name # y.tags[j].name
    /\ \A i \in DOMAIN y.tags : ~y.tags[i].live => y.tags[i].evs = << >> /\ y.tags[i].maps = << >> /\ y.tags[i].data = << >>

(* a refused request changes nothing and tells nobody; so do questions *)
Quiet == {"getn", "geti", "ovrget", "mapget", "cdtn", "cdtt", "connect"}
NothingHappened(x, o, r) ==
    /\ ~r.ok /\ o.op \notin {"grpwrite", "grpread"} => r.s = x /\ r.g = << >>
    /\ o.op \in Quiet \ {"connect"} => r.s = x /\ r.g = << >>
    /\ o.op = "read" /\ ~(r.ok /\ x.tags # r.s.tags) => r.s = x

(* C01: every bit has the value it was last given *)
LastGiven(log, b, old) ==
    LET f == {k \in DOMAIN log : b >= 8 * log[k][1] /\ b < 8 * (log[k][1] + Len(log[k][2])) /\ Bit(log[k][3], b - 8 * log[k][1]) = 1}
    IN IF f = {} THEN old ELSE LET k == CHOOSE k \in f : \A j \in f : j <= k IN Bit(log[k][2], b - 8 * log[k][1])
C01(y, h, o, a, r) ==
    /\ \A i \in DataTags(y) : \A b \in 0..(8 * Len(y.tags[i].data) - 1) :
         ~y.tags[i].sp => Bit(y.tags[i].data, b) = LastGiven(Get(h.log, i, << >>), b, 0)
    /\ o.op = "read" /\ r.ok /\ a.idx > 10 =>
         /\ Len(r.v) = a.size
         /\ \A k \in 0..(8 * a.size - 1) : Bit(r.v, k) = LastGiven(Get(h.log, a.idx, << >>), 8 * a.off + k, 0)
    /\ o.op \in {"read", "write", "mwrite"} /\ r.ok => a.off >= 0 /\ a.off + (IF o.op = "read" THEN a.size ELSE Len(a.data)) <= Len(y.tags[a.idx].data)

(* C02, C03: names and indexes *)
C02(x, g, y, h, o, a, r) ==
    /\ o.op = "add" /\ r.ok => IF a.name \in DOMAIN g.name THEN r.v = g.name[a.name] ELSE r.v \notin g.given
    /\ {<<y.tags[i].name, i>> : i \in {i \in Users(y) : ~y.tags[i].sp}} = {<<n, h.name[n]>> : n \in DOMAIN h.name}
    /\ o.op = "getn" => (r.ok <=> a.name \in DOMAIN g.name) /\ (r.ok => r.v.idx = g.name[a.name])
    /\ o.op = "geti" => (r.ok => a.idx \in 0..10 \/ a.idx \in Range1(g.name) \/ a.idx \in Range1(g.mods)) /\ (a.idx \in Range1(g.name) => r.ok)
    /\ o.op = "del" => (r.ok <=> a.idx \in Range1(g.name))
C03(x, y, h, o, r) ==
    /\ y.tags[0].data = IntBytes(11 + Cardinality(DOMAIN h.name) + Cardinality(DOMAIN h.mods), 4)
    /\ y.tags[1].data = IntBytes(CHOOSE m \in h.given : \A k \in h.given : k <= m, 4)
    /\ o.op = "del" /\ r.ok => Slice(y.tags[3].data, 0, 4) = IntBytes(r.v, 4)
    /\ o.op = "add" /\ r.ok /\ y.cnt # x.cnt => Slice(y.tags[2].data, 0, 4) = IntBytes(r.v, 4)

(* C04: layout *)
RECURSIVE GhostSize(_, _)
BaseOrDef(h, low) == {k \in DOMAIN h.def : h.def[k].low = low}
GhostPlaces(h, k) ==     \* positions of the members of the k-th definition, then its end, in bits
    LET ms == h.def[k].members
        step(pos, m) == IF m.tlow = "bool" THEN <<pos, pos + m.count>>
                        ELSE LET p == pos + ((8 - (pos % 8)) % 8) IN <<p, p + 8 * m.count * GhostSize(h, m.tlow)>>
        p[j \in 0..Len(ms)] == IF j = 0 THEN <<0, 0>> ELSE step(p[j - 1][2], ms[j])
    IN p
GhostSize(h, low) == IF BaseOrDef(h, low) = {} THEN BaseSize(LowBase[low])
                     ELSE LET k == CHOOSE k \in BaseOrDef(h, low) : TRUE
                              e == GhostPlaces(h, k)[Len(h.def[k].members)][2]
                          IN (e + ((8 - (e % 8)) % 8)) \div 8
C04(y, h, o, a, r) ==
    /\ DOMAIN y.types = {0, 1} \cup {h.def[k].n : k \in DOMAIN h.def}
    /\ \A k \in DOMAIN h.def : LET t == y.types[h.def[k].n]  p == GhostPlaces(h, k) IN
         /\ t.low = h.def[k].low
         /\ TypeSize(y, Cdt(h.def[k].n)) = GhostSize(h, h.def[k].low)
         /\ \A j \in DOMAIN t.members :
              /\ t.members[j].name = h.def[k].members[j].name /\ t.members[j].count = h.def[k].members[j].count
              /\ MemberPos(y, t.members, j) = p[j][1]
              /\ j > 1 => MemberPos(y, t.members, j) >= p[j - 1][2] /\ MemberPos(y, t.members, j) - p[j - 1][2] < 8

(* C06: when an event fires *)
El(d, e, k) == LET z == BaseSize(e.h.t.b)  v == d[e.byte + k * z + 1] IN IF e.h.t.b = "SINT" /\ v > 127 THEN v - 256 ELSE v   \* one-byte types only
SVal(v) == IF v > 127 THEN v - 256 ELSE v
Overlap(e, off, size) == off < e.byte + e.size /\ off + size > e.byte
FiredSet(r, idx) == {<<n.idx, n.id>> : n \in {n \in UNION {Range1(r.g[k]) : k \in DOMAIN r.g} : n.idx = idx}}
C06(x, g, y, o, a, r) ==
    \A k \in DOMAIN g.subs :
      LET e == g.subs[k]
          before == x.tags[k[1]].data   after == y.tags[k[1]].data
          size == Len(a.data)
          fired == \E j \in DOMAIN r.g : \E i \in DOMAIN r.g[j] : r.g[j][i].idx = k[1] /\ r.g[j][i].id = k[2]
          did == o.op \in {"write", "mwrite"} /\ r.ok /\ a.idx = k[1] /\ Overlap(e, a.off, size)
          in(j) == IF e.h.t.b = "BOOL" THEN TRUE ELSE e.byte + j < a.off + size /\ e.byte + j >= a.off
          bit(d, j) == Bit(d, 8 * e.byte + e.h.bit + j)
          known == Get(g.touch, k, << >>)      \* elements evaluated so far, with the deadband's reference
          cond(d, j) == CASE e.et = "SET" -> bit(d, j) = 1
                          [] e.et = "RESET" -> bit(d, j) = 0
                          [] e.et = "EQUAL" -> El(d, e, j) = SVal(e.val[1])
                          [] e.et = "GREATER" -> El(d, e, j) > SVal(e.val[1])
                          [] e.et = "LESS" -> El(d, e, j) < SVal(e.val[1])
          want == CASE e.et = "WRITE" -> TRUE
                    [] e.et = "CHANGE" /\ e.h.t.b = "BOOL" -> \E j \in 0..(e.h.count - 1) : bit(before, j) # bit(after, j)
                    [] e.et = "CHANGE" /\ e.h.t.b # "BOOL" -> \E j \in 0..(e.size - 1) : before[e.byte + j + 1] # after[e.byte + j + 1]
                    [] e.et \in {"SET", "RESET", "EQUAL", "GREATER", "LESS"} ->
                         \E j \in 0..(e.h.count - 1) : in(j) /\ cond(after, j) /\ ~(j \in DOMAIN known /\ cond(before, j))
                    [] e.et = "DEADBAND" ->
                         \E j \in 0..(e.h.count - 1) : in(j) /\ LET d == El(after, e, j) - known[j] IN d >= SVal(e.val[1]) \/ -d >= SVal(e.val[1])
      IN IF did THEN fired = want
         ELSE o.op \in {"write", "mwrite", "evadd", "evdel", "evopt"} => ~fired
Touch(x, g, y, o, a, r) ==     \* the ghost of C06 afterwards
    LET size == Len(a.data)
        upd(k) == LET e == g.subs[k]  known == Get(g.touch, k, << >>)
                      in(j) == IF e.h.t.b = "BOOL" THEN TRUE ELSE e.byte + j < a.off + size /\ e.byte + j >= a.off
                  IN IF a.idx = k[1] /\ Overlap(e, a.off, size)
                     THEN IF e.et = "DEADBAND"
                          THEN [j \in DOMAIN known |-> IF in(j) /\ (El(y.tags[k[1]].data, e, j) - known[j] >= SVal(e.val[1]) \/ known[j] - El(y.tags[k[1]].data, e, j) >= SVal(e.val[1]))
                                                       THEN El(y.tags[k[1]].data, e, j) ELSE known[j]]
                          ELSE [j \in DOMAIN known \cup {j \in 0..(e.h.count - 1) : in(j)} |-> 1]
                     ELSE known
    IN IF o.op \in {"write", "mwrite"} /\ r.ok THEN [k \in DOMAIN g.subs |-> upd(k)]
       ELSE IF o.op = "evadd" /\ r.ok /\ a.et = "DEADBAND"
       THEN Put(g.touch, <<a.h.idx, r.v>>, [j \in 0..(a.h.count - 1) |-> SVal(y.tags[a.h.idx].data[a.h.byte + j + 1])])
       ELSE IF o.op = "evadd" /\ r.ok THEN Put(g.touch, <<a.h.idx, r.v>>, << >>)
       ELSE g.touch

(* C07: who is told, and what *)
C07(x, g, y, h, o, a, r) ==
    LET all == [j \in DOMAIN r.g |-> Range1(r.g[j])]
        notes == UNION {all[j] : j \in DOMAIN all}
    IN /\ \A n \in notes : LET k == <<n.idx, n.id>> IN
            /\ k \in DOMAIN g.subs /\ g.subs[k].c = n.c /\ g.subs[k].et = n.et
            /\ n.data = (IF g.subs[k].opt
                         THEN SubSeq(IF n.et = "DELETED" THEN x.tags[n.idx].data ELSE y.tags[n.idx].data, g.subs[k].byte + 1, g.subs[k].byte + g.subs[k].size) ELSE << >>)
            /\ n.et = "DELETED" <=> n.idx \in Gone(g, o, a, r)
            /\ n.et # "DELETED" => o.op = "write" /\ a.idx = n.idx /\ Overlap(g.subs[k], a.off, Len(a.data))
       /\ \A k \in DOMAIN g.subs :
            /\ g.subs[k].et = "WRITE" /\ o.op = "write" /\ r.ok /\ a.idx = k[1] /\ Overlap(g.subs[k], a.off, Len(a.data))
                 => Cardinality({<<j, i>> \in (DOMAIN r.g) \X (1..20) : i \in DOMAIN r.g[j] /\ r.g[j][i].idx = k[1] /\ r.g[j][i].id = k[2]}) = 1
            /\ g.subs[k].et = "DELETED" /\ k[1] \in Gone(g, o, a, r) /\ ~(o.op = "disconnect" /\ g.subs[k].c = o.c)
                 => \E n \in notes : n.idx = k[1] /\ n.id = k[2]
       /\ {<<i, y.tags[i].evs[k].id>> : <<i, k>> \in {<<i, k>> \in (Users(y) \X (1..6)) : k \in DOMAIN y.tags[i].evs}} = DOMAIN h.subs
       /\ o.op \in {"evdel", "evopt"} => (r.ok <=> <<a.idx, a.id>> \in DOMAIN g.subs /\ g.subs[<<a.idx, a.id>>].c = o.c)

(* C08: what mappings copy *)
MBits(m) == IF m.src.t.b = "BOOL" THEN m.src.count ELSE 8 * m.src.size
SBit(m) == 8 * m.src.byte + (IF m.src.t.b = "BOOL" THEN m.src.bit ELSE 0)
DBit(m) == 8 * m.dst.byte + (IF m.src.t.b = "BOOL" \/ m.dst.t.b = "BOOL" THEN m.dst.bit ELSE 0)
C08(x, y, o, a, r) ==
    LET direct == o.op \in {"write", "mwrite", "atomic"} /\ r.ok
        i == IF o.op = "atomic" THEN a.h.idx ELSE IF o.op \in {"write", "mwrite"} THEN a.idx ELSE -1
        off == IF o.op = "atomic" THEN a.h.byte ELSE a.off
        size == IF o.op = "atomic" THEN a.h.size ELSE Len(a.data)
        ms == IF direct THEN SelectSeq(x.tags[i].maps, LAMBDA m : off < m.src.byte + m.src.size /\ off + size > m.src.byte /\ x.tags[m.dst.idx].live /\ ~x.tags[m.dst.idx].ro /\ m.dst.idx # i) ELSE << >>
        self == direct /\ \E k \in DOMAIN x.tags[i].maps : x.tags[i].maps[k].dst.idx = i
        cover(t, b) == {k \in DOMAIN ms : ms[k].dst.idx = t /\ b >= DBit(ms[k]) /\ b < DBit(ms[k]) + MBits(ms[k])}
    IN direct /\ ~self =>
       \A t \in DataTags(y) \ {i} : \A b \in 0..(8 * Len(y.tags[t].data) - 1) :
         LET f == cover(t, b) IN
         Bit(y.tags[t].data, b) =
           IF f = {} THEN Bit(x.tags[t].data, b)
           ELSE LET k == CHOOSE k \in f : \A j \in f : j <= k IN Bit(y.tags[i].data, SBit(ms[k]) + b - DBit(ms[k]))

(* C09: first in, first out *)
C09(g, y, h, o, a, r) ==
    /\ \A i \in DOMAIN h.fifo : y.tags[i].q = h.fifo[i]
    /\ o.op = "read" /\ a.idx \in DOMAIN g.fifo => (r.ok <=> g.fifo[a.idx] # << >> /\ a.off = 0 /\ a.size = SizeOf(y, a.idx)) /\ (r.ok => r.v = g.fifo[a.idx][1])

(* C10: a group is its members *)
GOff(hs, k) == LET f[j \in 0..(k - 1)] == IF j = 0 THEN 0 ELSE f[j - 1] + hs[j].size IN f[k - 1]
C10(x, g, y, h, o, a, r) ==
    /\ {<<c, k>> \in {"A", "B"} \X (1..8) : c \in DOMAIN y.cl /\ k \in DOMAIN y.cl[c].grp} = DOMAIN h.grp
    /\ o.op \in {"grpread", "grpwrite", "grpdel"} /\ r.ok => <<o.c, a.id>> \in DOMAIN g.grp
    /\ o.op = "grpread" /\ r.ok => LET hs == g.grp[<<o.c, a.id>>] IN
         \A k \in DOMAIN hs : hs[k].idx \in DataTags(x) => SubSeq(r.v, GOff(hs, k) + 1, GOff(hs, k) + hs[k].size) = SubSeq(x.tags[hs[k].idx].data, hs[k].byte + 1, hs[k].byte + hs[k].size)
    /\ o.op = "grpwrite" /\ r.ok => LET hs == g.grp[<<o.c, a.id>>]
              cov(t, b) == {k \in DOMAIN hs : hs[k].idx = t /\ IF hs[k].t.b = "BOOL" THEN b >= 8*hs[k].byte + hs[k].bit /\ b < 8*hs[k].byte + hs[k].bit + hs[k].count
                                                              ELSE b >= 8*hs[k].byte /\ b < 8*(hs[k].byte + hs[k].size)}
         IN \A t \in DataTags(x) : \A b \in 0..(8 * Len(x.tags[t].data) - 1) :
              LET f == cov(t, b) IN
              Bit(y.tags[t].data, b) = IF f = {} THEN Bit(x.tags[t].data, b)
                                      ELSE LET k == CHOOSE k \in f : \A j \in f : j <= k IN Bit(a.data, 8 * (GOff(hs, k) - hs[k].byte) + b)

(* C11: arithmetic *)
Num(d, off, size) == IF size = 1 THEN d[off + 1] ELSE d[off + 1] + 256 * d[off + 2]
C11(x, y, o, a, r) ==
    o.op = "atomic" /\ r.ok => LET h == a.h  z == h.size  d0 == x.tags[h.idx].data  d1 == y.tags[h.idx].data
             cap == 256 ^ z
             tr(op, u, v) == CASE op = "NOT" -> u = 0 [] op = "OR" -> u = 1 \/ v = 1 [] op = "AND" -> u = 1 /\ v = 1 [] op = "NOR" -> u = 0 /\ v = 0
                               [] op = "NAND" -> ~(u = 1 /\ v = 1) [] op = "XOR" -> u # v [] op = "XNOR" -> u = v
             mapped == \E k \in DOMAIN x.tags[h.idx].maps : x.tags[h.idx].maps[k].dst.idx = h.idx
             first == 8 * h.byte + (IF h.t.b = "BOOL" THEN h.bit ELSE 0)
             n == IF h.t.b = "BOOL" THEN h.count ELSE 8 * z
         IN IF a.aop = "INC" THEN Num(d1, h.byte, z) = (Num(d0, h.byte, z) + Num(a.data, 0, z)) % cap
            ELSE IF a.aop = "DEC" THEN Num(d1, h.byte, z) = (Num(d0, h.byte, z) + cap - Num(a.data, 0, z)) % cap
            ELSE \A b \in 0..(8 * Len(d0) - 1) :
                   IF b >= first /\ b < first + n THEN (Bit(d1, b) = 1) = tr(a.aop, Bit(d0, b), Bit(a.data, b - first)) ELSE Bit(d1, b) = Bit(d0, b)

(* C12: the override decides what is seen, never what is stored *)
C12(x, y, h, o, a, r) ==
    /\ \A i \in DataTags(y) : \A b \in 0..(8 * Len(y.tags[i].data) - 1) : ~y.tags[i].sp => Bit(y.tags[i].data, b) = LastGiven(Get(h.log, i, << >>), b, 0)
    /\ o.op = "read" /\ r.ok /\ a.idx > 10 => \A k \in 0..(8 * a.size - 1) :
         LET b == 8 * a.off + k IN
         Bit(r.v, k) = IF y.tags[a.idx].oset /\ b \in DOMAIN Get(h.ovr, a.idx, << >>) THEN h.ovr[a.idx][b] ELSE LastGiven(Get(h.log, a.idx, << >>), b, 0)
    /\ \A i \in Users(y) : (y.tags[i].om # << >>) = (DOMAIN Get(h.ovr, i, << >>) # {})
    /\ y.tags[7].data = IntBytes(Cardinality({i \in Users(y) : DOMAIN Get(h.ovr, i, << >>) # {}}), 4)
    /\ y.tags[8].data = IntBytes(Cardinality({i \in Users(y) : y.tags[i].oset}), 4)
    /\ o.op = "ovrset" /\ r.ok => y.tags[a.idx].oset = a.on

(* C13: whose tag it is *)
C13(x, g, y, o, a, r) ==
    LET t == CASE o.op \in {"write", "mwrite"} -> a.idx [] o.op = "atomic" -> a.h.idx [] OTHER -> -1
    IN /\ t \in DOMAIN g.prot /\ r.ok => ~g.prot[t].ro \/ g.prot[t].owner = o.c
       /\ \A i \in DOMAIN g.prot \cap Users(y) : g.prot[i].ro /\ g.prot[i].owner # o.c => y.tags[i].data = x.tags[i].data
       /\ \A i \in Range1(g.mods) \cap Users(y) :
            /\ SubSeq(y.tags[i].data, 1, 12) = SubSeq(x.tags[i].data, 1, 12)
            /\ o.c \notin DOMAIN g.mods \/ g.mods[o.c] # i => SubSeq(y.tags[i].data, 1, 77) = SubSeq(x.tags[i].data, 1, 77)
       /\ o.op = "add" /\ r.ok /\ a.name \in DOMAIN g.name => LET p == g.prot[g.name[a.name]] IN ~p.own \/ p.owner = o.c
       /\ \A i \in 0..10 : r.ok /\ t = i => FALSE

(* C14: one status tag for each registered module, as long as it's there *)
C14(y, h) ==
    /\ {i \in Users(y) : y.tags[i].sp} = Range1(h.mods)
    /\ \A c, d \in DOMAIN h.mods : c # d => h.mods[c] # h.mods[d] /\ Slice(y.tags[h.mods[c]].data, 8, 4) # Slice(y.tags[h.mods[d]].data, 8, 4)
    /\ \A c \in DOMAIN y.cl : y.cl[c].reg <=> c \in DOMAIN h.mods
    /\ \A c \in DOMAIN h.mods : Len(y.tags[h.mods[c]].name) <= 32 /\ SubSeq(y.tags[h.mods[c]].chars, 1, 2) = <<95, 109>>

(* C15: what is retained is there after a restart, and nothing else *)
C15(x, g, y, o) ==
    o.op = "restart" => /\ {y.tags[i].name : i \in Users(y)} = DOMAIN g.kept
                        /\ \A i \in Users(y) : \E j \in Users(x) : x.tags[j].name = y.tags[i].name /\ x.tags[j].data = y.tags[i].data /\ x.tags[j].count = y.tags[i].count /\ x.tags[j].t = y.tags[i].t
                        /\ \A n \in DOMAIN g.kept : n \in DOMAIN g.name

Holds(x, g, o, a, r, h) ==
    LET y == r.s
        P(name, v) == IF v THEN TRUE ELSE Assert(FALSE, <<"broken", name, o, a, [ok |-> r.ok, v |-> r.v, g |-> r.g]>>)
    IN /\ P("WellFormed", WellFormed(y))
       /\ P("NothingHappened", NothingHappened(x, o, r))
       /\ Profile \in {"data", "overrides"} => P("C12", Profile = "data" \/ C12(x, y, h, o, a, r)) /\ P("C01", Profile = "overrides" \/ C01(y, h, o, a, r))
       /\ P("C02", C02(x, g, y, h, o, a, r))
       /\ P("C03", Profile = "retain" \/ C03(x, y, h, o, r))
       /\ P("C04", C04(y, h, o, a, r))
       /\ Profile = "events" => P("C06", C06(x, g, y, o, a, r))
       /\ Profile = "delivery" => P("C07", C07(x, g, y, h, o, a, r))
       /\ Profile \in {"maps", "atomic", "protect", "retain"} => P("C08", C08(x, y, o, a, r))
       /\ P("C09", C09(g, y, h, o, a, r))
       /\ P("C10", C10(x, g, y, h, o, a, r))
       /\ P("C11", C11(x, y, o, a, r))
       /\ P("C13", o.op = "restart" \/ C13(x, g, y, o, a, r))
       /\ P("C14", C14(y, h))
       /\ P("C15", C15(x, g, y, o))

----------------------------------------------------------------------------
StepOf(x, e, g, o) ==
    LET a == Concrete(e, o)
        r == Act(x, o.c, o.op, a, g)
        h0 == NewGhost(g, o, a, r, x)
        h == IF Profile = "events" THEN [h0 EXCEPT !.touch = Touch(x, g, r.s, o, a, r)] ELSE h0
    IN IF Holds(x, g, o, a, r, h) THEN [s |-> r.s, env |-> NewEnv(e, o, r, r.s), gh |-> h] ELSE [s |-> x, env |-> e, gh |-> g]

RECURSIVE Begin(_, _)
Begin(st, k) == IF k > Len(Prologue) THEN st ELSE Begin(StepOf(st.s, st.env, st.gh, Prologue[k]), k + 1)
Start == TLCEval(Begin([s |-> Fresh, env |-> << >>, gh |-> Ghost0], 1))

Init == /\ s = Start.s /\ env = Start.env /\ gh = Start.gh /\ hist = << >>
        /\ Emit => PrintT("OPS " \o ToJson([prologue |-> Prologue, alphabet |-> Alphabet]))

Next == /\ Len(hist) < Depth
        /\ \E k \in 1..Len(Alphabet) :
             LET o == Alphabet[k] IN
             /\ Possible(s, o)
             /\ LET n == StepOf(s, env, gh, o) IN
                /\ s' = n.s /\ env' = n.env /\ gh' = n.gh /\ hist' = Append(hist, k)
                /\ Emit => PrintT(<<IF n.s = s /\ n.env = env THEN "SAME" ELSE "EDGE", hist'>>)

Spec == Init /\ [][Next]_vars
=============================================================================
