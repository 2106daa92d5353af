------------------------------ MODULE MCBreak ------------------------------
(***************************************************************************)
(* The algorithm that breaks up values, with every random choice explored: *)
(* outputs are made one at a time until the value is used up or there are  *)
(* no more addresses, and the last one takes the rest.  Checks that every  *)
(* result satisfies BreakOK.                                               *)
(***************************************************************************)
EXTENDS Break, ModelUniverse

CONSTANTS Values, BreakValues, AddressLists, FeeRates

VARIABLES v, bv, addrs, fr, last, sub, left, outs, state

vars == <<v, bv, addrs, fr, last, sub, left, outs, state>>

Init == /\ v \in Values /\ bv \in BreakValues /\ addrs \in AddressLists /\ fr \in FeeRates
        /\ last \in BOOLEAN /\ sub \in BOOLEAN
        /\ left = v /\ outs = <<>> /\ state = "more"

Params == <<v, bv, addrs, fr, last, sub>>

Script1(i) == addrs[i].l
OutCostOf(i) == Amount(OutFeeN(Script1(i), fr))
InCostOf(i)  == Amount(InFeeN(Script1(i), fr))

(* the values that may be chosen; varied ones are represented by the ends of their range *)
Choices == UNION {LET base == Times(Times(bv, i), Tens[p])
                      low  == Minus(base, Div(base, 10))
                  IN  {base} \cup (IF Ge(base, Amount(10)) THEN {low, PlusN(Plus(low, Div(base, 5)), -1)} ELSE {})
                  : i \in Increments, p \in 1..PowerCount(v, bv, Len(addrs))}

Next1 == Len(outs) + 1

Room == IF sub THEN Gt(left, OutCostOf(Next1)) /\ Gt(Minus(left, OutCostOf(Next1)), InCostOf(Next1))
                    /\ Ge(Minus(left, OutCostOf(Next1)), bv)
        ELSE Gt(left, InCostOf(Next1)) /\ Ge(left, bv)

Available == IF sub THEN Minus(left, OutCostOf(Next1)) ELSE left

Add == /\ state = "more" /\ Next1 < Len(addrs) /\ Room
       /\ \E c \in Choices :
             LET x == Min2(c, Available) IN
             /\ outs' = Append(outs, NewOutput(Script1(Next1), x, FALSE, FALSE, addrs[Next1].k))
             /\ left' = Minus(Available, x)
       /\ UNCHANGED <<Params, state>>

MergeRest == IF Len(outs) = 0 THEN outs
             ELSE [outs EXCEPT ![Len(outs)].v = Plus(@, left), ![Len(outs)].r = last]

Finish ==
    /\ state = "more" /\ (Next1 >= Len(addrs) \/ ~Room)
    /\ state' = "done"
    /\ outs' = LET own == IF sub THEN Gt(left, Plus(OutCostOf(Next1), InCostOf(Next1)))
                          ELSE Gt(left, Zero) /\ Ge(left, InCostOf(Next1))
                   x   == IF sub THEN Minus(left, OutCostOf(Next1)) ELSE left
               IN  IF own THEN Append(outs, NewOutput(Script1(Next1), x, last, FALSE, addrs[Next1].k))
                   ELSE MergeRest
    /\ UNCHANGED <<Params, left>>

(* The outputs are shuffled in the end, which BreakOK doesn't depend on. *)
Next == Add \/ Finish

Spec == Init /\ [][Next]_vars

Correct == state = "done" => BreakOK(v, bv, addrs, fr, last, sub, outs)

=============================================================================
