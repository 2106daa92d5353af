------------------------------- MODULE Moves -------------------------------
(***************************************************************************)
(* Calls worth making in a state: small sets of arguments at the boundaries*)
(* at which the behaviour of a call changes.  Used to explore the model    *)
(* (MCBuilder) and to derive histories that are made with the real code    *)
(* (Behaviours).                                                           *)
(***************************************************************************)
EXTENDS Props

(* Scripts by role.  All of them can be expressed as an address except data and odd ones; odd ones *)
(* can't be spent.                                                                                *)
CONSTANTS PayScript, OtherScript, ChangeScript, MultiScript, DataScript, OddScript

OutpointSeq == <<"1:0", "13:0", "14:1", "2:0", "3:1", "4:0", "5:0", "6:0", "7:0", "8:0", "9:0", "10:0">>

NoArg == [x \in {} |-> 0]

NonNegative(set) == {v \in set : ~IsNeg(v)}

(* x, one less and one more *)
Around(x) == NonNegative({PlusN(x, -1), x, PlusN(x, 1)})

(* Amounts of surplus at which what happens to it changes, when change goes to l. *)
Thresholds(s, l) ==
    LET f == OutFee(s, l)
        d == OutDust(s, l)
        c == OutCost(s, l)
    IN  {Zero, d, Plus(d, f), Plus(f, f), c, Plus(f, c)}

ChangeTo(s) == IF HasRem(s) THEN s.outs[FirstRem(s)].l ELSE IF s.chg # 0 THEN s.chg ELSE PayScript

Missing(s) == Minus(EstFee(s), Fee(s))

(* the n-th outpoint that isn't spent yet *)
FreshOutpoint(s, n) ==
    LET free == {i \in 1..Len(OutpointSeq) : ~Spends(s, OutpointSeq[i])}
        at   == CHOOSE i \in free : Cardinality({j \in free : j < i}) = n - 1
    IN  OutpointSeq[at]

UTXO(o, l, v) == [o |-> o, l |-> l, v |-> v, k |-> "key1"]

(* Values of a single output of script l that funds s with an interesting surplus *)
FundingValues(s, l) ==
    LET need == PlusN(Missing(s), InFeeN(l, s.fr) + FeeUpN(CountGrowth(NIn(s), 1), s.fr)) IN
    NonNegative(UNION {Around(Plus(need, t)) : t \in Thresholds(s, ChangeTo(s))})

Move(op, arg) == [op |-> op, arg |-> arg]

Large == Amount(20000)
Small == Amount(150)

---------------------------------------------------------------------------

(* 0 based positions, including the one after the end *)
InPositions(s)  == 0..NIn(s)
OutPositions(s) == 0..NOut(s)

InputMoves(s) ==
    LET f    == FreshOutpoint(s, 1)
        new  == {UTXO(f, PayScript, Large), UTXO(f, MultiScript, Small)}
        old  == {UTXO(s.ins[i].o, PayScript, Small) : i \in 1..NIn(s)}
    IN  {Move("addInputUTXO", [u |-> u]) : u \in new \cup old}
        \cup {Move("insertInput", [i |-> i, u |-> u]) : i \in InPositions(s), u \in new \cup old}
        \cup {Move("updateInput", [i |-> i, u |-> u]) : i \in InPositions(s), u \in new \cup old}
        \cup {Move("removeInput", [i |-> i]) : i \in InPositions(s)}

OutputMoves(s) ==
    {Move("addOutput", [l |-> l, v |-> v, r |-> r, d |-> FALSE]) :
        l \in {PayScript, DataScript}, v \in Around(OutFee(s, PayScript)) \cup {Zero}, r \in {FALSE}}
    \cup {Move("addOutput", [l |-> ChangeScript, v |-> v, r |-> TRUE, d |-> FALSE]) :
             v \in {OutFee(s, ChangeScript), OutCost(s, ChangeScript), Large}}
    \cup {Move("insertOutput", [i |-> i, l |-> OtherScript, v |-> Large, r |-> r, d |-> FALSE]) :
             i \in OutPositions(s) \cup {NOut(s) + 1}, r \in BOOLEAN}
    \cup {Move("addDust", [l |-> l, r |-> FALSE]) : l \in {PayScript, OddScript}}
    \cup {Move("addMax", [l |-> l]) : l \in {OtherScript, DataScript}}
    \cup {Move("removeOutput", [i |-> i]) : i \in OutPositions(s)}
    \cup {Move("updateOutput", [i |-> i, l |-> l]) : i \in OutPositions(s), l \in {ChangeScript, DataScript}}

(* Whether the i-th output exists *)
ValueMoves(s) ==
    LET dust(i) == IF i < NOut(s) THEN OutDust(s, s.outs[i + 1].l) ELSE Zero
        val(i)  == IF i < NOut(s) THEN s.outs[i + 1].v ELSE Zero
    IN  UNION {{Move("addValue", [i |-> i, v |-> v]) : v \in Around(dust(i))} : i \in OutPositions(s)}
        \cup UNION {{Move("subValue", [i |-> i, v |-> v]) :
                        v \in Around(Minus(val(i), dust(i))) \cup Around(val(i))} : i \in OutPositions(s)}
        \cup {Move("setDust", [i |-> i]) : i \in OutPositions(s)}

ChangeMoves(s) ==
    {Move("setChangeAddr", [l |-> l, k |-> "key2"]) : l \in {ChangeScript, MultiScript, DataScript}}

(* Adjustments that leave an existing remainder output around the amounts that matter or lower the *)
(* fee by amounts around those at which a change output is added                                   *)
FeeMoves(s) ==
    LET c     == FirstRem(s)
        raise == IF c = 0 THEN {Amount(1)}
                 ELSE UNION {Around(Minus(s.outs[c].v, t)) : t \in {Zero, OutCost(s, s.outs[c].l)}}
        lower == UNION {Around(t) : t \in Thresholds(s, ChangeTo(s))}
    IN  {Move("adjustFee", [v |-> v]) : v \in raise \cup {Neg(x) : x \in lower}}
        \cup {Move("calcFee", NoArg), Move("zeroFee", NoArg)}

FundMoves(s) ==
    LET f == FreshOutpoint(s, 1)
        g == FreshOutpoint(s, 2)
        one  == {<<UTXO(f, l, v)>> : l \in {PayScript}, v \in FundingValues(s, PayScript)}
        m    == {<<UTXO(f, MultiScript, v)>> : v \in FundingValues(s, MultiScript)}
        dup  == {<<UTXO(s.ins[i].o, PayScript, Large), UTXO(f, PayScript, Large)>> : i \in 1..NIn(s)}
        two  == {<<UTXO(f, PayScript, Small), UTXO(g, PayScript, v)>> :
                   v \in FundingValues(SetIns(s, Append(s.ins, NewInput(UTXO(f, PayScript, Small)))), PayScript)}
        rest == {<<>>, <<UTXO(f, PayScript, Large), UTXO(g, PayScript, Large)>>,
                 <<UTXO(f, PayScript, Large), UTXO(f, PayScript, Large)>>, <<UTXO(f, OddScript, Large)>>}
    IN  {Move("addFunding", [us |-> us]) : us \in one \cup m \cup dup \cup two \cup rest}

Addresses == {<<[l |-> ChangeScript, k |-> "key3"]>>,
              <<[l |-> ChangeScript, k |-> "key3"], [l |-> OtherScript, k |-> "key4"], [l |-> PayScript, k |-> ""]>>}

BreakMoves(s) ==
    LET f == FreshOutpoint(s, 1)
        a == CHOOSE x \in Addresses : Len(x) = 1
        base == SetOuts(s, Append(s.outs, NewOutput(ChangeScript, Zero, TRUE, FALSE, "")))
        vals == FundingValues(IF HasRem(s) THEN s ELSE base, PayScript) \cup FundingValues(s, PayScript) \cup {Large}
    IN  {Move("breakFund", [us |-> <<UTXO(f, PayScript, v)>>, bv |-> Amount(400), addrs |-> x]) :
             v \in vals, x \in Addresses}
        \cup {Move("breakFund", [us |-> us, bv |-> Amount(400), addrs |-> x]) :
                 us \in {<<>>, <<UTXO(f, OddScript, Large)>>}, x \in Addresses \cup {<<>>}}

MovesOf(kind, s) ==
    CASE kind = "input"  -> InputMoves(s)
      [] kind = "output" -> OutputMoves(s)
      [] kind = "value"  -> ValueMoves(s)
      [] kind = "change" -> ChangeMoves(s)
      [] kind = "fee"    -> FeeMoves(s)
      [] kind = "fund"   -> FundMoves(s)
      [] kind = "break"  -> BreakMoves(s)

---------------------------------------------------------------------------
(* The possible results of a move *)

(* Some of the ways to break v: leading addresses get the break value, the last one used the rest. *)
BreakResults(v, bv, addrs, fr) ==
    LET n == Len(addrs)
        cost(i) == Amount(OutFeeN(addrs[i].l, fr) + InFeeN(addrs[i].l, fr))
        rest(k) == Minus(v, SumFrom([i \in 1..(k - 1) |-> PlusN(bv, OutFeeN(addrs[i].l, fr))], 1))
        outs(k) == [i \in 1..k |->
                      IF i < k THEN NewOutput(addrs[i].l, bv, FALSE, FALSE, addrs[i].k)
                      ELSE NewOutput(addrs[k].l, Minus(rest(k), Amount(OutFeeN(addrs[k].l, fr))), TRUE, FALSE,
                                     addrs[k].k)]
        good == {k \in 1..n : Gt(rest(k), cost(k))}
    IN  IF Le(v, cost(1)) THEN {<<>>} ELSE {outs(k) : k \in good}

AfterBreak(s, o, arg) ==
    IF o.how = "break"
    THEN {[e |-> "ok", s |-> SetOuts(o.s, o.s.outs \o outs), a |-> o.a \o [i \in 1..Len(outs) |-> "n"], d |-> FALSE] :
            outs \in BreakResults(o.v, arg.bv, arg.addrs, s.fr)}
    ELSE {[e |-> o.e, s |-> o.s, a |-> o.a, d |-> FALSE]}

Results(s, a, m) ==
    IF m.op = "breakFund"
    THEN UNION {AfterBreak(s, o, m.arg) : o \in BreakFund(s, a, m.arg.us, m.arg.addrs)}
    ELSE Outcomes(m.op, s, a, m.arg)

CallOf(s, a, m, o) ==
    [op |-> m.op, b |-> "b1", arg |-> m.arg, r |-> [e |-> o.e, d |-> o.d], pre |-> s, post |-> o.s, af |-> a,
     q |-> NoArg, m |-> FALSE, before |-> NoArg, after |-> NoArg, cache |-> EmptyCache, seen |-> {},
     shuf |-> FALSE, imp |-> FALSE, twin |-> <<>>]

=============================================================================
