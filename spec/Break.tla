------------------------------- MODULE Break -------------------------------
(***************************************************************************)
(* Breaking up values.  The result is random, so it is specified by what   *)
(* every result satisfies (see MCBreak for the algorithm that refines it). *)
(***************************************************************************)
EXTENDS Builder, FiniteSets

Increments == {1, 2, 5}
Tens       == <<1, 10, 100, 1000>>

(* twice the average value of all but one of n pieces *)
Average(v, n) == IF n = 1 THEN v ELSE Times(Div(v, n - 1), 2)

(* number of powers of ten to choose from when v is broken into n pieces *)
PowerCount(v, bv, n) ==
    LET a == Average(v, n) IN
    IF Ge(a, Times(bv, 500)) THEN 4 ELSE IF Ge(a, Times(bv, 50)) THEN 3 ELSE IF Ge(a, Times(bv, 5)) THEN 2 ELSE 1

(* a value is a multiple of the break value, by one of the first pc powers of ten, varied by up to ten percent *)
Form(v, bv, pc) ==
    \E i \in Increments, p \in {Tens[j] : j \in 1..pc} :
       LET base == Times(Times(bv, i), p)
           low  == Minus(base, Div(base, 10))
       IN  \/ v = base
           \/ Ge(base, Amount(10)) /\ Ge(v, low) /\ Lt(v, Plus(low, Div(base, 5)))

(* number of entries of a sequence equal to x *)
Occurs(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})

SameBag(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Occurs(p, p[i]) = Occurs(q, p[i])

RECURSIVE BrokenTotal(_, _, _, _)
(* the values from i on and, if fees are subtracted, the fees for including them *)
BrokenTotal(outs, fr, sub, i) ==
    IF i > Len(outs) THEN Zero
    ELSE Plus(PlusN(outs[i].v, IF sub THEN OutFeeN(outs[i].l, fr) ELSE 0), BrokenTotal(outs, fr, sub, i + 1))

Destination(o) == [l |-> o.l, k |-> o.k]

(* outputs pay a leading part of the addresses, each once *)
Leading(outs, addrs) ==
    /\ Len(outs) <= Len(addrs)
    /\ SameBag([i \in 1..Len(outs) |-> Destination(outs[i])], SubSeq(addrs, 1, Len(outs)))

(* exactly the output paying the last address used is marked, if last *)
Marked(outs, addrs, last) ==
    LET m == {i \in 1..Len(outs) : outs[i].r} IN
    IF last /\ Len(outs) > 0
    THEN Cardinality(m) = 1 /\ \A i \in m : Destination(outs[i]) = addrs[Len(outs)]
    ELSE m = {}

Conserved(v, addrs, fr, sub, outs) ==
    IF Len(outs) > 0 THEN BrokenTotal(outs, fr, sub, 1) = v
    ELSE Le(v, Amount(InFeeN(addrs[1].l, fr) + (IF sub THEN OutFeeN(addrs[1].l, fr) ELSE 0)))

(* every output is worth spending if the break value is *)
WorthSpending(bv, addrs, fr, last, sub, outs) ==
    \A i \in 1..Len(outs) :
       LET f == Amount(InFeeN(outs[i].l, fr)) IN
       Gt(Times(bv, 9), Times(f, 10)) =>
          \/ Gt(outs[i].v, f)
          \/ ~sub /\ outs[i].v = f /\ Destination(outs[i]) = addrs[Len(outs)]

Formed(bv, pc, addrs, outs) ==
    LET odd == {i \in 1..Len(outs) : ~Form(outs[i].v, bv, pc)} IN
    Cardinality(odd) <= 1 /\ \A i \in odd : Destination(outs[i]) = addrs[Len(outs)]

Largest(bv, pc) == LET base == Times(Times(bv, Tens[pc]), 5) IN Plus(base, Div(base, 10))

(* addresses are left over only if there was too little left for the next one *)
UsedUp(bv, pc, addrs, fr, outs) ==
    Len(outs) \in 1..(Len(addrs) - 1) =>
       LET next == addrs[Len(outs) + 1].l IN
       \A i \in 1..Len(outs) :
          \/ Le(outs[i].v, PlusN(Plus(Largest(bv, pc), bv), OutFeeN(next, fr) + InFeeN(next, fr)))
          \/ Le(outs[i].v, PlusN(bv, OutFeeN(outs[i].l, fr) + InFeeN(outs[i].l, fr)))

BreakOK(v, bv, addrs, fr, last, sub, outs) ==
    /\ \A i \in 1..Len(outs) : Usable(Destination(outs[i]))
    /\ Leading(outs, addrs)
    /\ \A i \in 1..Len(outs) : ~outs[i].d
    /\ Marked(outs, addrs, last)
    /\ Conserved(v, addrs, fr, sub, outs)
    /\ WorthSpending(bv, addrs, fr, last, sub, outs)
    /\ Formed(bv, PowerCount(v, bv, Len(addrs)), addrs, outs)
    /\ UsedUp(bv, PowerCount(v, bv, Len(addrs)), addrs, fr, outs)

(* Multiples of the break value that breaking v into n pieces can start with, fees aside.  Each of *)
(* them has to be seen sooner or later, as it is and varied.                                      *)
Startable(v, bv, n) ==
    {i * p : i \in Increments, p \in {Tens[j] : j \in 1..PowerCount(v, bv, n)}}
KindsOK(v, bv, n, kinds) ==
    \A m \in Startable(v, bv, n) :
       LET base == IF m > 1000 THEN Times(Times(bv, 1000), m \div 1000) ELSE Times(bv, m) IN
       Ge(v, Plus(base, Div(base, 10))) => m \in kinds

QuantityOK(v, bv, n, vs) ==
    /\ Len(vs) <= n
    /\ \A i \in 1..Len(vs) : Gt(vs[i], Zero)
    /\ Sum(vs) = v
    /\ Cardinality({i \in 1..Len(vs) : ~Form(vs[i], bv, PowerCount(v, bv, n))}) <= 1
    /\ Len(vs) < n => \A i \in 1..Len(vs) : Le(vs[i], Largest(bv, PowerCount(v, bv, n)))

=============================================================================
