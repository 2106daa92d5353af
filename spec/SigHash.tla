------------------------------ MODULE SigHash ------------------------------
(***************************************************************************)
(* Signature hashes.  A preimage is represented by its fields, with hashes *)
(* named by what they are hashes of: "P" all outpoints, "S" all sequences, *)
(* "O" all outputs, "o<n>" output n, "Z" zeros.                            *)
(***************************************************************************)
EXTENDS Builder, TLC

BaseType(t) == t % 32
AnyoneCanPay(t) == t >= 128
WrittenType(t) == IF (t \div 64) % 2 = 1 THEN t ELSE t + 64

Hex(t) == LET d == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
          IN  d[(t \div 16) + 1] \o d[(t % 16) + 1]

TypeAll    == 1
TypeNone   == 2
TypeSingle == 3

PrevLabel(t) == IF AnyoneCanPay(t) THEN "Z" ELSE "P"
SeqLabel(t)  == IF AnyoneCanPay(t) \/ BaseType(t) \in {TypeNone, TypeSingle} THEN "Z" ELSE "S"
(* i is the 0 based index of the input *)
OutLabel(s, i, t) ==
    CASE BaseType(t) = TypeNone   -> "Z"
      [] BaseType(t) = TypeSingle -> IF i < NOut(s) THEN "o" \o ToString(i) ELSE "Z"
      [] OTHER -> "O"

CodeStart(l) == IF Len(Script(l).sep) = 0 THEN 0 ELSE Script(l).sep[Len(Script(l).sep)]

Known(s, i, l) == i < NIn(s) /\ Script(l).pars

(* x is [i, l, v, t] *)
Preimage(s, x) ==
    [ver |-> s.ver, hp |-> PrevLabel(x.t), hs |-> SeqLabel(x.t), o |-> s.ins[x.i + 1].o,
     off |-> CodeStart(x.l), v |-> x.v, q |-> s.ins[x.i + 1].q, ho |-> OutLabel(s, x.i, x.t),
     lt |-> s.lt, t |-> Hex(WrittenType(x.t))]

Has(q, x) == \E n \in 1..Len(q) : q[n] = x

(* p is a decoded preimage: hashes have all names that match *)
Decodes(p, e) ==
    /\ p.ver = e.ver /\ p.o = e.o /\ p.off = e.off /\ p.v = e.v /\ p.q = e.q /\ p.lt = e.lt /\ p.t = e.t
    /\ Has(p.hp, e.hp) /\ Has(p.hs, e.hs) /\ Has(p.ho, e.ho)

OutContent(o) == <<o.l, o.v>>

(* Everything a signature hash commits to *)
Committed(s, x) ==
    LET e == Preimage(s, x) IN
    [ver |-> e.ver, o |-> e.o, code |-> Script(x.l).code, v |-> e.v, q |-> e.q, lt |-> e.lt, t |-> e.t,
     p |-> IF e.hp = "P" THEN [n \in 1..NIn(s) |-> s.ins[n].o] ELSE <<>>,
     s |-> IF e.hs = "S" THEN [n \in 1..NIn(s) |-> s.ins[n].q] ELSE <<>>,
     outs |-> IF e.ho = "O" THEN [n \in 1..NOut(s) |-> OutContent(s.outs[n])]
              ELSE IF e.ho = "Z" THEN <<>> ELSE <<OutContent(s.outs[x.i + 1])>>,
     zero |-> e.ho = "Z"]

(* r is the observed result *)
SigHashOK(s, x, r) ==
    IF Known(s, x.i, x.l)
    THEN r.e = "ok" /\ r.same /\ r.dsha /\ Decodes(r.p, Preimage(s, x))
    ELSE r.e \notin {"ok", "panic", "hang"} /\ r.same

(* seen is a set of [k committed data, h hash] *)
SameHash(seen, k, h) == \A e \in seen : (e.k = k) = (e.h = h)

---------------------------------------------------------------------------
(* The cache.  Its state is what it may hold hashes of: everything but the *)
(* outputs (ins) and the outputs (outs), or "none", or "mixed" when it was *)
(* used for something else without being cleared.                          *)

EmptyCache == [ins |-> <<"none">>, outs |-> <<"none">>]

InPart(s)  == <<"tx", s.ver, s.lt, [n \in 1..NIn(s) |-> <<s.ins[n].o, s.ins[n].q>>]>>
OutPart(s) == <<"outs", [n \in 1..NOut(s) |-> OutContent(s.outs[n])]>>

Mixed == <<"mixed">>

UsePart(c, p) == IF c = <<"none">> \/ c = p THEN p ELSE Mixed
Use(c, s)     == [ins |-> UsePart(c.ins, InPart(s)), outs |-> UsePart(c.outs, OutPart(s))]
(* only the hash of the outputs ("O") or of the outpoints or sequences *)
UseFor(c, s, f) == IF f = "O" THEN [c EXCEPT !.outs = UsePart(@, OutPart(s))]
                   ELSE [c EXCEPT !.ins = UsePart(@, InPart(s))]
Clear(c)      == EmptyCache
ClearOuts(c)  == [c EXCEPT !.outs = <<"none">>]

Valid(c, s) == LET u == Use(c, s) IN u.ins # Mixed /\ u.outs # Mixed
ValidFor(c, s, f) == LET u == UseFor(c, s, f) IN IF f = "O" THEN u.outs # Mixed ELSE u.ins # Mixed

=============================================================================
