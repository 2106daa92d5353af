------------------------------ MODULE Builder ------------------------------
(***************************************************************************)
(* State and transitions of a transaction builder.                         *)
(*                                                                         *)
(* A builder state is a record                                             *)
(*   ver, lt   version and lock time (text)                                *)
(*   ins       inputs   [o outpoint, q sequence, l locking script, v value,*)
(*                       k key id, u unlocking script]                     *)
(*   outs      outputs  [l, v, r remainder?, d dust?, k]                   *)
(*   si, so    number of supplemental input and output records             *)
(*   chg, ck   change script and change key id                             *)
(*   sm        send max?                                                   *)
(*   fr, dr    fee rate and dust fee rate (index into Rates)               *)
(* An unlocking script is [c, n, z, y, h, ks]: c is "n" (none), "d"        *)
(* (embedded unlocking data with unlocking size z and value y) or "s"      *)
(* (anything else), n its length, h identifies the bytes, ks the keys      *)
(* pushed in it.                                                           *)
(*                                                                         *)
(* Whether an output was added by a fee adjustment can't be observed, so it*)
(* is kept apart, in a sequence a of "y", "n" or "u" (unknown, after a     *)
(* shuffle), one for each output.                                          *)
(*                                                                         *)
(* Every operation is given as the set of its possible outcomes            *)
(* [e error class, s state, a added-for-fee marks, d done flag].           *)
(***************************************************************************)
EXTENDS Sizes

NoUnlock == [c |-> "n", n |-> 0, z |-> 0, y |-> Zero, h |-> "", ks |-> <<>>]

FinalSeq == "ffffffff"

EmptyBuilder(fr, dr) ==
    [ver |-> "1", lt |-> "0", ins |-> <<>>, outs |-> <<>>, si |-> 0, so |-> 0,
     chg |-> 0, ck |-> "", sm |-> FALSE, fr |-> fr, dr |-> dr]

NIn(s)  == Len(s.ins)
NOut(s) == Len(s.outs)

SetIns(s, ins)   == [s EXCEPT !.ins = ins, !.si = Len(ins)]
SetOuts(s, outs) == [s EXCEPT !.outs = outs, !.so = Len(outs)]

RemoveAt(q, i)    == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
InsertAt(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))

---------------------------------------------------------------------------
(* Totals and estimates *)

InValue(in) == IF in.v = Zero /\ in.u.c = "d" THEN in.u.y ELSE in.v

RECURSIVE InTotalFrom(_, _)
InTotalFrom(ins, i) == IF i > Len(ins) THEN Zero ELSE Plus(InValue(ins[i]), InTotalFrom(ins, i + 1))
InTotal(s) == InTotalFrom(s.ins, 1)

RECURSIVE OutTotalFrom(_, _, _)
OutTotalFrom(outs, change, i) ==
    IF i > Len(outs) THEN Zero
    ELSE IF change \/ ~outs[i].r THEN Plus(outs[i].v, OutTotalFrom(outs, change, i + 1))
    ELSE OutTotalFrom(outs, change, i + 1)
OutTotal(s) == OutTotalFrom(s.outs, TRUE, 1)
OutTotalNoChange(s) == OutTotalFrom(s.outs, FALSE, 1)

(* Input value minus output value *)
Fee(s) == Minus(InTotal(s), OutTotal(s))

InEst(in) ==
    IF in.l = 0 /\ in.u.c = "d" THEN InputSizeFor(in.u.z)
    ELSE LET n == InSize(in.l) IN IF n < 0 THEN P2PKHIn ELSE n

RECURSIVE InEstFrom(_, _)
InEstFrom(ins, i) == IF i > Len(ins) THEN 0 ELSE InEst(ins[i]) + InEstFrom(ins, i + 1)

RECURSIVE OutSizeFrom(_, _)
OutSizeFrom(outs, i) == IF i > Len(outs) THEN 0 ELSE OutSize(outs[i].l) + OutSizeFrom(outs, i + 1)

(* Estimated size after signing *)
EstSize(s) == 8 + VarInt(NIn(s)) + VarInt(NOut(s)) + InEstFrom(s.ins, 1) + OutSizeFrom(s.outs, 1)
EstFee(s)  == FeeUp(EstSize(s), s.fr)

RECURSIVE InSerFrom(_, _)
InSerFrom(ins, i) == IF i > Len(ins) THEN 0 ELSE InputSizeFor(ins[i].u.n) + InSerFrom(ins, i + 1)

(* Serialized size *)
SerSize(s) == 8 + VarInt(NIn(s)) + VarInt(NOut(s)) + InSerFrom(s.ins, 1) + OutSizeFrom(s.outs, 1)

RECURSIVE FirstRemFrom(_, _)
FirstRemFrom(outs, i) == IF i > Len(outs) THEN 0 ELSE IF outs[i].r THEN i ELSE FirstRemFrom(outs, i + 1)
(* index of the first remainder output, 0 if there is none *)
FirstRem(s) == FirstRemFrom(s.outs, 1)
HasRem(s)   == FirstRem(s) # 0

OutDust(s, l) == DustOf(l, s.dr)
OutFee(s, l)  == FeeUp(OutSize(l), s.fr)
(* cost of creating and spending an output *)
OutCost(s, l) == Amount(OutFeeN(l, s.fr) + InFeeN(l, s.fr))

---------------------------------------------------------------------------
(* Outcomes *)

Ok(s, a)        == {[e |-> "ok", s |-> s, a |-> a, d |-> FALSE]}
OkDone(s, a, d) == {[e |-> "ok", s |-> s, a |-> a, d |-> d]}
Reject(s, a, e) == {[e |-> e, s |-> s, a |-> a, d |-> FALSE]}

---------------------------------------------------------------------------
(* Inputs *)

NewInput(u) == [o |-> u.o, q |-> FinalSeq, l |-> u.l, v |-> u.v, k |-> u.k, u |-> NoUnlock]

Spends(s, o) == \E i \in 1..NIn(s) : s.ins[i].o = o

AddInput(s, a, u) ==
    IF Spends(s, u.o) THEN Reject(s, a, "dup") ELSE Ok(SetIns(s, Append(s.ins, NewInput(u))), a)

(* i is 0 based *)
InsertInput(s, a, i, u) ==
    IF i > NIn(s) THEN Reject(s, a, "other")
    ELSE IF Spends(s, u.o) THEN Reject(s, a, "dup")
    ELSE Ok(SetIns(s, InsertAt(s.ins, i + 1, NewInput(u))), a)

UpdateInput(s, a, i, u) ==
    IF i >= NIn(s) THEN Reject(s, a, "other")
    ELSE IF \E j \in 1..NIn(s) : j # i + 1 /\ s.ins[j].o = u.o THEN Reject(s, a, "dup")
    ELSE Ok([s EXCEPT !.ins[i + 1].o = u.o, !.ins[i + 1].l = u.l, !.ins[i + 1].v = u.v,
                      !.ins[i + 1].k = u.k], a)

RemoveInput(s, a, i) ==
    IF i >= NIn(s) THEN Reject(s, a, "other") ELSE Ok(SetIns(s, RemoveAt(s.ins, i + 1)), a)

---------------------------------------------------------------------------
(* Outputs *)

NewOutput(l, v, r, d, k) == [l |-> l, v |-> v, r |-> r, d |-> d, k |-> k]

BelowMinimum(s, l, v, r) ==
    Lt(v, OutFee(s, l)) /\ ~(s.sm /\ r) /\ ~Script(l).un

(* i is the 0 based position *)
InsertOutput(s, a, i, l, v, r, d) ==
    IF i > NOut(s) THEN Reject(s, a, "other")
    ELSE IF ~d /\ BelowMinimum(s, l, v, r) THEN Reject(s, a, "below")
    ELSE Ok(SetOuts(s, InsertAt(s.outs, i + 1,
                NewOutput(l, IF d THEN OutDust(s, l) ELSE v, r, d, ""))), InsertAt(a, i + 1, "n"))

AddOutput(s, a, l, v, r, d) == InsertOutput(s, a, NOut(s), l, v, r, d)

(* adr: is the address usable? *)
AddToAddress(s, a, adr, l, v, r, d) ==
    IF ~adr THEN Reject(s, a, "other") ELSE AddOutput(s, a, l, v, r, d)

AddMax(s, a, adr, l) ==
    IF ~adr THEN Reject(s, a, "other") ELSE AddOutput([s EXCEPT !.sm = TRUE], a, l, Zero, TRUE, FALSE)

RemoveOutput(s, a, i) ==
    IF i >= NOut(s) THEN Reject(s, a, "other")
    ELSE Ok(SetOuts(s, RemoveAt(s.outs, i + 1)), RemoveAt(a, i + 1))

AddValue(s, a, i, v) ==
    IF i >= NOut(s) THEN Reject(s, a, "other")
    ELSE LET o == s.outs[i + 1] IN
         IF o.d
         THEN IF Lt(v, OutDust(s, o.l)) THEN Reject(s, a, "below")
              ELSE Ok([s EXCEPT !.outs[i + 1].d = FALSE, !.outs[i + 1].v = v], a)
         ELSE Ok([s EXCEPT !.outs[i + 1].v = Plus(o.v, v)], a)

SubValue(s, a, i, v) ==
    IF i >= NOut(s) THEN Reject(s, a, "other")
    ELSE LET o == s.outs[i + 1]
             n == Minus(o.v, v)
         IN  IF IsNeg(n) \/ Lt(n, OutDust(s, o.l)) THEN Reject(s, a, "other")
             ELSE Ok([s EXCEPT !.outs[i + 1].v = n], a)

SetDust(s, a, i) ==
    IF i >= NOut(s) THEN Reject(s, a, "other")
    ELSE Ok([s EXCEPT !.outs[i + 1].d = TRUE, !.outs[i + 1].v = OutDust(s, s.outs[i + 1].l)], a)

UpdateOutput(s, a, i, l) ==
    IF i >= NOut(s) THEN Reject(s, a, "other") ELSE Ok([s EXCEPT !.outs[i + 1].l = l], a)

AppendOutputs(s, a, outs) ==
    Ok(SetOuts(s, s.outs \o outs), a \o [i \in 1..Len(outs) |-> "n"])

SetChange(s, a, adr, l, k) ==
    IF ~adr THEN Reject(s, a, "other")
    ELSE Ok([s EXCEPT !.chg = l, !.ck = k,
                      !.outs = [i \in 1..NOut(s) |->
                          IF s.outs[i].l = l THEN [s.outs[i] EXCEPT !.r = TRUE, !.k = k]
                          ELSE s.outs[i]]], a)

---------------------------------------------------------------------------
(* Fees *)

(* Raising the fee by a positive amount. *)
RaiseFee(s, a, amount) ==
    LET c == FirstRem(s) IN
    IF c = 0 THEN Reject(s, a, "insufficient")
    ELSE LET o    == s.outs[c]
             left == Minus(o.v, amount)
         IN  IF IsNeg(left) THEN Reject(s, a, "insufficient")
             ELSE IF Lt(left, OutCost(s, o.l))
                  THEN (IF a[c] = "n" THEN {} ELSE
                            OkDone(SetOuts(s, RemoveAt(s.outs, c)), RemoveAt(a, c), TRUE))
                       \cup (IF a[c] = "y" THEN {} ELSE Reject(s, a, "insufficient"))
             ELSE OkDone([s EXCEPT !.outs[c].v = left], a, FALSE)

(* Lowering the fee by a positive amount. *)
LowerFee(s, a, amount) ==
    LET c == FirstRem(s) IN
    IF c # 0 THEN OkDone([s EXCEPT !.outs[c].v = Plus(@, amount)], a, FALSE)
    ELSE LET cur  == EstSize(s)
             new  == cur + (IF s.chg = 0 THEN P2PKHOut ELSE OutSize(s.chg)) + CountGrowth(NOut(s), 1)
             fee  == Minus(FeeUp(new, s.fr), FeeUp(cur, s.fr))
             adj  == Minus(amount, fee)
             cost == IF s.chg = 0
                     THEN Amount(FeeUpN(2 * P2PKHOut, s.fr) + FeeUpN(2 * P2PKHIn, s.fr))
                     ELSE OutCost(s, s.chg)
         IN  IF IsNeg(adj) \/ Le(adj, cost) THEN OkDone(s, a, TRUE)
             ELSE IF s.chg = 0 THEN Reject(s, a, "change")
             ELSE OkDone(SetOuts(s, Append(s.outs, NewOutput(s.chg, adj, TRUE, FALSE, s.ck))),
                         Append(a, "y"), FALSE)

AdjustFee(s, a, amount) ==
    IF amount = Zero THEN OkDone(s, a, TRUE)
    ELSE IF IsNeg(amount) THEN LowerFee(s, a, Neg(amount))
    ELSE RaiseFee(s, a, amount)

CalculateFee(s, a) == AdjustFee(s, a, Minus(EstFee(s), Fee(s)))
ZeroizeFee(s, a)   == AdjustFee(s, a, Neg(Fee(s)))

---------------------------------------------------------------------------
(* Funding *)

Funded(s, fee) == Ge(Minus(Fee(s), fee), Zero)

(* Threshold below which a surplus is not turned into change and the fee of a new change output. *)
FundingLimits(s) ==
    LET c == FirstRem(s)
        g == FeeUpN(CountGrowth(NOut(s), 1), s.fr)
    IN  IF c # 0 THEN [dust |-> OutDust(s, s.outs[c].l), fee |-> Zero]
        ELSE IF s.chg # 0 THEN [dust |-> OutDust(s, s.chg), fee |-> Amount(OutFeeN(s.chg, s.fr) + g)]
        ELSE [dust |-> Amount(DustN(P2PKHOut, s.dr)), fee |-> Amount(SingleDown(P2PKHOut, s.fr) + g)]

(* Result of reaching the needed amount with surplus left. *)
GiveChange(s, a, lim, surplus) ==
    LET c == FirstRem(s) IN
    IF Le(surplus, lim.dust) THEN Ok(s, a)
    ELSE IF c # 0 THEN Ok([s EXCEPT !.outs[c].v = Plus(@, surplus)], a)
    ELSE IF Gt(surplus, Plus(lim.dust, lim.fee)) /\ Ge(surplus, Plus(lim.fee, lim.fee))
    THEN LET v == Minus(surplus, lim.fee) IN
         IF s.chg = 0 THEN Reject(s, a, "change")
         ELSE Ok(SetOuts(s, Append(s.outs, NewOutput(s.chg, v, TRUE, FALSE, s.ck))), Append(a, "n"))
    ELSE Ok(s, a)

RECURSIVE FundLoop(_, _, _, _, _, _)
FundLoop(s, a, lim, needed, utxos, i) ==
    IF i > Len(utxos) THEN (IF s.sm THEN CalculateFee(s, a) ELSE Reject(s, a, "insufficient"))
    ELSE LET u == utxos[i] IN
         IF Spends(s, u.o) THEN FundLoop(s, a, lim, needed, utxos, i + 1)
         ELSE LET s2 == SetIns(s, Append(s.ins, NewInput(u)))
                  n2 == PlusN(needed, InFeeN(u.l, s.fr) + FeeUpN(CountGrowth(NIn(s), 1), s.fr))
              IN  IF InSize(u.l) < 0 THEN Reject(s2, a, "unknown")
                  ELSE IF s.sm THEN FundLoop(s2, a, lim, n2, utxos, i + 1)
                  ELSE IF Le(n2, u.v) THEN GiveChange(s2, a, lim, Minus(u.v, n2))
                  ELSE FundLoop(s2, a, lim, Minus(n2, u.v), utxos, i + 1)

AddFunding(s, a, utxos) ==
    IF ~s.sm /\ Funded(s, EstFee(s)) THEN CalculateFee(s, a)
    ELSE IF Len(utxos) = 0 /\ ~s.sm THEN Reject(s, a, "insufficient")
    ELSE FundLoop(s, a, FundingLimits(s), Minus(EstFee(s), Fee(s)), utxos, 1)

(***************************************************************************)
(* Funding with broken up change.  The outcome has the inputs; "chg" says  *)
(* what happens to the outputs: "none" (as in s), "break" (value v is      *)
(* broken over the addresses).                                             *)
(***************************************************************************)
BreakOutcomes(set) == {[e |-> o.e, s |-> o.s, a |-> o.a, how |-> "none", v |-> Zero] : o \in set}

RECURSIVE BreakLoop(_, _, _, _, _, _, _, _, _)
BreakLoop(s, a, size, first, naddr, usable, rem, utxos, i) ==
    IF i > Len(utxos)
    THEN BreakOutcomes(IF s.sm THEN CalculateFee(s, a) ELSE Reject(s, a, "insufficient"))
    ELSE LET u == utxos[i] IN
         IF Spends(s, u.o) THEN BreakLoop(s, a, size, first, naddr, usable, rem, utxos, i + 1)
         ELSE LET s2 == SetIns(s, Append(s.ins, NewInput(u)))
                  z2 == size + InSize(u.l) + CountGrowth(NIn(s), 1)
              IN  IF InSize(u.l) < 0 THEN BreakOutcomes(Reject(s2, a, "unknown"))
                  ELSE IF s.sm THEN BreakLoop(s2, a, z2, first, naddr, usable, rem, utxos, i + 1)
                  ELSE IF Ge(Fee(s2), FeeUp(z2, s.fr))
                  THEN LET z3 == z2 - first + (IF rem THEN 0 ELSE CountGrowth(NOut(s), naddr))
                           v  == Minus(Fee(s2), FeeUp(z3, s.fr))
                           c  == FirstRem(s)
                       IN  IF rem
                           THEN BreakOutcomes(Ok([s2 EXCEPT !.outs[c].v = Plus(@, v)], a))
                           ELSE {[e |-> "ok", s |-> s2, a |-> a, how |-> "break", v |-> v]}
                                \cup (IF usable THEN {} ELSE BreakOutcomes(Reject(s2, a, "unknown")))
                  ELSE BreakLoop(s2, a, z2, first, naddr, usable, rem, utxos, i + 1)

(* no address, as opposed to one that can be paid *)
Usable(addr) == addr.l # 0

(* addrs is a sequence of [l, k] *)
BreakFund(s, a, utxos, addrs) ==
    LET rem   == HasRem(s)
        first == IF rem \/ Len(addrs) = 0 THEN 0 ELSE OutSize(addrs[1].l) + CountGrowth(NOut(s), 1)
        size  == EstSize(s) + first
        fee   == FeeUp(size, s.fr)
        more  == BreakLoop(s, a, size, first, Len(addrs), \A i \in 1..Len(addrs) : Usable(addrs[i]), rem, utxos, 1)
        rest  == IF Len(utxos) = 0 /\ ~s.sm THEN BreakOutcomes(Reject(s, a, "insufficient")) ELSE more
    IN  IF ~rem /\ Len(addrs) = 0 THEN BreakOutcomes(Reject(s, a, "change"))
        ELSE IF ~rem /\ ~Usable(addrs[1]) THEN BreakOutcomes(Reject(s, a, "unknown"))
        ELSE IF ~s.sm /\ rem /\ Funded(s, fee) THEN BreakOutcomes(CalculateFee(s, a))
        ELSE IF ~s.sm /\ ~rem /\ Funded(s, Plus(fee, OutCost(s, addrs[1].l)))
        THEN LET c == CHOOSE o \in SetChange(s, a, TRUE, addrs[1].l, addrs[1].k) : TRUE
             IN  BreakOutcomes(CalculateFee(c.s, a))
        ELSE rest

---------------------------------------------------------------------------
(* Signing *)

InSeq(q, x) == \E i \in 1..Len(q) : q[i] = x

Signable(l) == Script(l).kind \in {"p2pkh", "p2pk", "multi"}

RECURSIVE CountIn(_, _, _)
(* number of entries of ks, from i, that are in the set *)
CountIn(ks, set, i) ==
    IF i > Len(ks) THEN 0 ELSE (IF ks[i] \in set THEN 1 ELSE 0) + CountIn(ks, set, i + 1)

(* Can l be unlocked with this set of keys? *)
Completable(l, keys) == Signable(l) /\ CountIn(Script(l).keys, keys, 1) >= Script(l).req

SigCount(l) == Script(l).req

(* The amount of the fee adjustment done before signing; signing is rejected if it isn't covered. *)
SignFunded(s) == Funded(s, EstFee(s))
SignAdjust(s, a) == AdjustFee(s, a, Minus(EstFee(s), Fee(s)))

=============================================================================
