------------------------------- MODULE MCSign -------------------------------
(***************************************************************************)
(* Checks the signing loop for all ways in which the lengths of the        *)
(* signatures can depend on the change value, on builders with every       *)
(* combination of the outputs, surpluses and change settings below, signed *)
(* with some and then all keys and again.                                  *)
(***************************************************************************)
EXTENDS Moves, Sign, ModelUniverse

CONSTANTS FeeRates, DustRates, Period, Deltas, Inputs, Checked

VARIABLES s, a, short, phase, keys, last, bad
vars == <<s, a, short, phase, keys, last, bad>>

(* the value that signature lengths are made to depend on *)
Changes(t) == IF HasRem(t) THEN t.outs[FirstRem(t)].v[2] % Period ELSE Period

Shorter(i, t) == short[Changes(t)] * SigCount(t.ins[i].l)

Payment == NewOutput(OtherScript, Amount(1000), FALSE, FALSE, "")
Change(v) == NewOutput(ChangeScript, v, TRUE, FALSE, "key2")

Start(fr, dr) ==
    {[EmptyBuilder(fr, dr) EXCEPT !.chg = c, !.outs = o, !.so = Len(o)] :
        c \in {0, ChangeScript}, o \in {<<Payment>>, <<Change(Amount(3000))>>, <<Payment, Change(Amount(3000))>>,
                                        <<Change(Amount(3000)), Payment, Change(Amount(700))>>}}

WithInputs(t, ls, v) ==
    SetIns(t, [i \in 1..Len(ls) |-> NewInput(UTXO(OutpointSeq[i], ls[i], IF i = 1 THEN v ELSE Small))])

(* an input value that leaves the surplus *)
Provide(t, ls, surplus) ==
    LET u == WithInputs(t, ls, Zero) IN WithInputs(t, ls, Plus(Missing(u), surplus))

Surpluses(t) ==
    UNION {Around(x) : x \in Thresholds(t, ChangeTo(t))} \cup {Large, Neg(Amount(1)), Neg(Amount(5))}

Init == /\ \E fr \in FeeRates, dr \in DustRates : \E t \in Start(fr, dr), ls \in Inputs :
              \E x \in Surpluses(t) : s = Provide(t, ls, x)
        /\ a \in [1..NOut(s) -> {"n", "y"}] /\ (\A i \in 1..NOut(s) : a[i] = "y" => s.outs[i].r)
        /\ short \in [0..Period -> Deltas]
        /\ phase = "start" /\ keys = {} /\ last = "" /\ bad = {}

Next == \E ks \in {{1}, {1, 2, 3}} : \E o \in SignOutcomes(s, a, ks, Shorter) :
           /\ phase # "end"
           /\ phase' = IF phase = "start" THEN "again" ELSE "end"
           /\ s' = o.s /\ a' = o.a /\ keys' = ks /\ last' = o.e /\ short' = short
           /\ LET again == IF phase = "start" THEN "" ELSE IF ks = keys THEN "same:" \o last
                           ELSE IF keys \subseteq ks THEN "fewer:" \o last ELSE ""
                  arg   == [again |-> again, keys |-> IF ks = {1} THEN <<1>> ELSE <<1, 2, 3>>]
                  c     == [CallOf(s, a, [op |-> "sign", arg |-> arg], [e |-> o.e, d |-> FALSE, s |-> o.s, a |-> o.a])
                              EXCEPT !.r = [e |-> o.e, est |-> EstSize(o.s), ser |-> SerSize(o.s)]]
              IN  bad' = {p \in Checked : ~Holds(p, c)}

Spec == Init /\ [][Next]_vars

Correct == bad = {}

=============================================================================
