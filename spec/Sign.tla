-------------------------------- MODULE Sign --------------------------------
(***************************************************************************)
(* Signing with fee adjustment.  How long a signature gets depends on      *)
(* everything it commits to, and signing again after adjusting the fee     *)
(* gives other lengths.  Shorter(i, s) stands for the number of bytes that *)
(* the unlocking script of input i of s is shorter than estimated.         *)
(***************************************************************************)
EXTENDS Builder, TLC

(* identifies everything signatures commit to *)
Content(s) == ToString(<<s.ver, s.lt, [i \in 1..NIn(s) |-> s.ins[i].o], [i \in 1..NOut(s) |-> <<s.outs[i].l, s.outs[i].v>>]>>)

SignInputs(s, keys, Shorter(_, _)) ==
    [s EXCEPT !.ins = [i \in 1..NIn(s) |->
        IF Completable(s.ins[i].l, keys)
        THEN [s.ins[i] EXCEPT !.u = [c |-> "s", n |-> UnlockSize(s.ins[i].l) - Shorter(i, s), z |-> 0, y |-> Zero,
                                     h |-> Content(s), ks |-> SubSeq(Script(s.ins[i].l).keys, 1, Script(s.ins[i].l).req)]]
        ELSE s.ins[i]]]

Close(diff, target) == Le(diff, Amount(3)) \/ Lt(Times(diff, 20), target)

RECURSIVE SignLoop(_, _, _, _, _, _)
SignLoop(s, a, keys, Shorter(_, _), done, attempt) ==
    LET t       == SignInputs(s, keys, Shorter)
        missing == \E i \in 1..NIn(s) : ~Completable(s.ins[i].l, keys)
        target  == FeeUp(IF missing \/ Lt(Fee(t), EstFee(t)) THEN EstSize(t) ELSE SerSize(t), s.fr)
        result  == [e |-> IF missing THEN "missingkey" ELSE "ok", s |-> t, a |-> a]
        diff    == Minus(Fee(t), target)
    IN  IF IsNeg(Minus(Minus(InTotal(t), OutTotalNoChange(t)), target)) THEN {[e |-> "insufficient", s |-> t, a |-> a]}
        ELSE IF diff = Zero THEN {result}
        ELSE IF done THEN (IF IsNeg(diff) THEN {[e |-> "insufficient", s |-> t, a |-> a]} ELSE {result})
        ELSE IF ~IsNeg(diff) /\ (attempt <= 0 \/ Close(diff, target)) THEN {result}
        ELSE UNION {IF o.e = "ok" THEN SignLoop(o.s, o.a, keys, Shorter, o.d, attempt - 1)
                    ELSE {[e |-> o.e, s |-> o.s, a |-> o.a]} : o \in AdjustFee(t, a, Neg(diff))}

SignOutcomes(s, a, keys, Shorter(_, _)) ==
    IF ~SignFunded(s) THEN {[e |-> "insufficient", s |-> s, a |-> a]}
    ELSE UNION {IF o.e = "ok" THEN SignLoop(o.s, o.a, keys, Shorter, o.d, 3)
                ELSE {[e |-> o.e, s |-> s, a |-> a]} : o \in SignAdjust(s, a)}

=============================================================================
