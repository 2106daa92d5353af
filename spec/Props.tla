------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* The properties, as predicates on one observed call.                     *)
(*                                                                         *)
(* c is a call: [op, b builder, arg, r result, pre, post builder state     *)
(* before and after, af marks of outputs added for the fee before the call,*)
(* q what was read from the builder after the call, m whether the caller's *)
(* arguments were changed, before, after all builders, cache state of the  *)
(* signature hash cache used, seen earlier signature hashes, shuf whether  *)
(* the builder was shuffled, imp whether it was imported, twin the call    *)
(* before if this is the same call on an equal builder].  The same         *)
(* predicates are checked on the model (MC*.tla) and on calls recorded     *)
(* from the real code (Trace.tla).                                         *)
(***************************************************************************)
EXTENDS Builder, Break, SigHash, Reports, FiniteSets

Crashed(c) == c.r.e \in {"panic", "hang"}

InputEdits  == {"addInputUTXO", "addInput", "insertInput", "updateInput", "removeInput"}
OutputEdits == {"addOutput", "insertOutput", "addPayment", "addDust", "addMax", "addMaxScript",
                "removeOutput", "addValue", "subValue", "setDust", "updateOutput", "addOutputs",
                "setChangeAddr", "setChangeScript"}
Edits    == InputEdits \cup OutputEdits
Adjusts  == {"adjustFee", "calcFee", "zeroFee"}
Fundings == {"addFunding", "breakFund"}
Signs    == {"sign", "signOnly", "signP2PKH"}
FeeCalls == Adjusts \cup Fundings \cup {"sign"}

(* The possible outcomes of a call that is a function of the builder state. *)
Outcomes(op, s, a, x) ==
    CASE op \in {"addInputUTXO", "addInput"} -> AddInput(s, a, x.u)
      [] op = "insertInput"  -> InsertInput(s, a, x.i, x.u)
      [] op = "updateInput"  -> UpdateInput(s, a, x.i, x.u)
      [] op = "removeInput"  -> RemoveInput(s, a, x.i)
      [] op = "addOutput"    -> AddOutput(s, a, x.l, x.v, x.r, x.d)
      [] op = "insertOutput" -> InsertOutput(s, a, x.i, x.l, x.v, x.r, x.d)
      [] op = "addPayment"   -> AddToAddress(s, a, Script(x.l).adr, x.l, x.v, x.r, FALSE)
      [] op = "addDust"      -> AddToAddress(s, a, Script(x.l).adr, x.l, Zero, x.r, TRUE)
      [] op = "addMax"       -> AddMax(s, a, Script(x.l).adr, x.l)
      [] op = "addMaxScript" -> AddMax(s, a, TRUE, x.l)
      [] op = "removeOutput" -> RemoveOutput(s, a, x.i)
      [] op = "addValue"     -> AddValue(s, a, x.i, x.v)
      [] op = "subValue"     -> SubValue(s, a, x.i, x.v)
      [] op = "setDust"      -> SetDust(s, a, x.i)
      [] op = "updateOutput" -> UpdateOutput(s, a, x.i, x.l)
      [] op = "addOutputs"   -> AppendOutputs(s, a, x.outs)
      [] op = "setChangeAddr"   -> SetChange(s, a, Script(x.l).adr, x.l, x.k)
      [] op = "setChangeScript" -> SetChange(s, a, TRUE, x.l, x.k)
      [] op = "adjustFee"    -> AdjustFee(s, a, x.v)
      [] op = "calcFee"      -> CalculateFee(s, a)
      [] op = "zeroFee"      -> ZeroizeFee(s, a)
      [] op = "addFunding"   -> AddFunding(s, a, x.us)

(* Comparing states: everything that can be observed except whether inputs are valid. *)
Fields == {"ver", "lt", "ins", "outs", "si", "so", "chg", "ck", "sm", "fr", "dr"}
Same(s, t) == \A f \in Fields : s[f] = t[f]
SameBut(s, t, but) == \A f \in Fields \ but : s[f] = t[f]

(* Supplemental data exists for every input and output and all scripts are ones the caller gave. *)
WellFormed(s) ==
    /\ s.si = NIn(s) /\ s.so = NOut(s)
    /\ \A i \in 1..NIn(s) : s.ins[i].l >= 0
    /\ \A i \in 1..NOut(s) : s.outs[i].l >= 0
    /\ s.chg >= 0 /\ s.fr >= 1 /\ s.dr >= 1

(* Guards against calls whose state can't be interpreted; reported by P08. *)
Sane(c) == WellFormed(c.pre) /\ WellFormed(c.post)

NoUnlocks(ins) == [i \in 1..Len(ins) |-> [ins[i] EXCEPT !.u = NoUnlock]]

Distinct(s) == \A i \in 1..NIn(s) : \A j \in (i + 1)..NIn(s) : s.ins[i].o # s.ins[j].o

---------------------------------------------------------------------------
(* P01: payments survive *)

Kept(x, y, exempt) ==
    /\ x.l = y.l /\ x.d = y.d
    /\ exempt \/ (x.r = y.r /\ x.k = y.k)
    /\ x.v = y.v \/ x.r \/ exempt

P01(c) == c.op \in FeeCalls \cup Signs =>
    /\ ~Crashed(c)
    /\ SameBut(c.pre, c.post, {"ins", "outs", "si", "so"} \cup (IF c.op = "breakFund" THEN {"chg", "ck"} ELSE {}))
    /\ c.op \notin Fundings => NoUnlocks(c.post.ins) = NoUnlocks(c.pre.ins)
    /\ c.op = "breakFund" =>
          \/ c.post.chg = c.pre.chg /\ c.post.ck = c.pre.ck
          \/ Len(c.arg.addrs) > 0 /\ c.post.chg = c.arg.addrs[1].l /\ c.post.ck = c.arg.addrs[1].k
    /\ LET x == c.pre.outs
           y == c.post.outs
           exempt(i) == c.op = "breakFund" /\ Len(c.arg.addrs) > 0 /\ x[i].l = c.arg.addrs[1].l
           j == FirstRem(c.pre)
           added(i) ==
              IF c.op = "breakFund"
              THEN (\E n \in 1..Len(c.arg.addrs) : c.arg.addrs[n].l = y[i].l)
                   \/ (c.pre.sm /\ y[i].l = c.pre.chg /\ y[i].r)
              ELSE c.pre.chg # 0 /\ y[i].l = c.pre.chg /\ y[i].r
       IN \/ /\ Len(y) >= Len(x)
             /\ \A i \in 1..Len(x) : Kept(x[i], y[i], exempt(i))
             /\ \A i \in (Len(x) + 1)..Len(y) : added(i)
          \/ /\ c.op \in FeeCalls
             /\ Len(y) = Len(x) - 1
             /\ j # 0
             /\ c.af[j] # "n"
             /\ \A i \in 1..Len(y) : LET p == IF i < j THEN i ELSE i + 1
                                     IN  Kept(x[p], y[i], exempt(p))

---------------------------------------------------------------------------
(* P02: the fee rate is paid *)

P02(c) ==
    /\ c.op \in {"addFunding", "breakFund", "calcFee"} /\ c.r.e = "ok" => Ge(Fee(c.post), EstFee(c.post))
    /\ c.op = "sign" /\ c.r.e = "ok" => Ge(Fee(c.post), FeeUp(SerSize(c.post), c.post.fr))
    /\ c.op = "sign" /\ c.r.e = "missingkey" => Ge(Fee(c.post), EstFee(c.post))
    /\ c.op \in FeeCalls => ~Crashed(c)

---------------------------------------------------------------------------
(* P03: surplus goes to change *)

(* The largest surplus that may be left when there is no remainder output and l could have been *)
(* the change script (0: unknown).                                                             *)
Unchangeable(s, l) ==
    LET g == FeeUpN(CountGrowth(NOut(s), 1), s.fr) IN
    IF l = 0
    THEN FeeUpN(P2PKHOut, s.fr) + g + 1 + MaxN(DustN(P2PKHOut, s.dr),
             FeeUpN(2 * P2PKHOut, s.fr) + FeeUpN(2 * P2PKHIn, s.fr))
    ELSE OutFeeN(l, s.fr) + g + 1 + MaxN(DustN(OutSize(l), s.dr), OutFeeN(l, s.fr) + InFeeN(l, s.fr))

Surplus(s) == Minus(Fee(s), EstFee(s))

Abs(n) == IF n < 0 THEN -n ELSE n

P03Allowance(c) ==
    LET x == c.pre
        y == c.post
        growth == CountGrowth(NIn(x), NIn(y) - NIn(x))
                  + (IF c.op = "breakFund" THEN CountGrowth(NOut(x), Len(c.arg.addrs))
                     ELSE CountGrowth(NOut(x), 1))
        rounding == (NIn(y) - NIn(x)) + Abs(NOut(y) - NOut(x))
                    + (IF growth > 0 THEN 2 + FeeUpN(growth, x.fr) ELSE 0)
        j == FirstRem(x)
        removed == NOut(y) < NOut(x) /\ j # 0
    IN  IF removed THEN rounding + Unchangeable(y, x.outs[j].l)
        ELSE IF HasRem(x) THEN rounding + DustN(OutSize(x.outs[j].l), x.dr)
        ELSE IF NOut(y) > NOut(x) THEN rounding
        ELSE IF c.op = "breakFund" /\ ~x.sm THEN rounding + Unchangeable(x, c.arg.addrs[1].l)
        ELSE rounding + Unchangeable(x, x.chg)

P03(c) ==
    /\ c.op \in {"addFunding", "breakFund", "calcFee"} /\ c.r.e = "ok" =>
          Le(Surplus(c.post), Amount(P03Allowance(c)))
    /\ c.op = "sign" /\ c.r.e = "ok" =>
          LET target == FeeUp(SerSize(c.post), c.post.fr)
              diff   == Minus(Fee(c.post), target)
          IN  \/ Le(diff, Amount(3))
              \/ Lt(Times(diff, 20), target)
              \/ ~HasRem(c.post) /\ Le(Surplus(c.post), Amount(Unchangeable(c.post, c.post.chg)))
    /\ c.op \in FeeCalls => ~Crashed(c)

---------------------------------------------------------------------------
(* P04: insufficient value exactly when value is insufficient *)

IsInsufficient(o) == o.e = "insufficient"

(* Signing replaces embedded data and the value it provides. *)
Overwrites(s) == \E i \in 1..NIn(s) : s.ins[i].u.c = "d" /\ Signable(s.ins[i].l)

BreakOut(c) == BreakFund(c.pre, c.af, c.arg.us, c.arg.addrs)

P04(c) ==
    /\ c.op \in FeeCalls => ~Crashed(c)
    /\ c.op \in {"addFunding"} \cup Adjusts =>
          \E o \in Outcomes(c.op, c.pre, c.af, c.arg) : IsInsufficient(o) = IsInsufficient(c.r)
    /\ c.op = "breakFund" => \E o \in BreakOut(c) : IsInsufficient(o) = IsInsufficient(c.r)
    \* There is no other reason to fail than those of the specification.
    /\ c.op \in {"addFunding", "calcFee"} /\ c.r.e \notin {"ok", "insufficient", "change"} =>
          \E o \in Outcomes(c.op, c.pre, c.af, c.arg) : o.e = c.r.e
    /\ c.op = "breakFund" /\ c.r.e \notin {"ok", "insufficient", "change"} =>
          \E o \in BreakOut(c) : o.e = c.r.e
    /\ c.op = "sign" /\ ~Overwrites(c.pre) => (IsInsufficient(c.r) <=> ~SignFunded(c.pre))
    /\ c.op \in {"addFunding", "breakFund", "calcFee", "sign"} /\ c.r.e = "ok" => ~IsNeg(Fee(c.post))

---------------------------------------------------------------------------
(* P05: no double spend *)

P05(c) ==
    /\ Distinct(c.pre) /\ c.op \in Edits \cup FeeCalls => Distinct(c.post)
    /\ c.op \in InputEdits =>
          /\ ~Crashed(c)
          /\ \E o \in Outcomes(c.op, c.pre, c.af, c.arg) :
                /\ (o.e = "dup") = (c.r.e = "dup")
                /\ (o.e = "ok") = (c.r.e = "ok")
    /\ c.op \in Fundings => c.r.e # "dup" /\ ~Crashed(c)

---------------------------------------------------------------------------
(* P06: offered outputs are used in order and only as needed *)

P06(c) ==
    /\ c.op \in Fundings => ~Crashed(c)
    /\ c.op = "addFunding" =>
          \E o \in Outcomes(c.op, c.pre, c.af, c.arg) : o.e = "unknown" \/ o.s.ins = c.post.ins
    /\ c.op = "breakFund" => \E o \in BreakOut(c) : o.e = "unknown" \/ o.s.ins = c.post.ins

---------------------------------------------------------------------------
(* P07: change only goes where the caller said *)

(* Values move only in the first remainder output; at most one output is appended, the configured *)
(* change, and only if there was no remainder output.                                             *)
ChangePlacement(c) ==
    LET x == c.pre.outs
        y == c.post.outs
        j == FirstRem(c.pre)
    IN  \/ Len(y) < Len(x)       \* see P01
        \/ /\ Len(y) >= Len(x)
           /\ \A i \in 1..Len(x) : i = j \/ x[i].v = y[i].v
           /\ Len(y) = Len(x)
              \/ /\ j = 0
                 /\ Len(y) = Len(x) + 1
                 /\ c.pre.chg # 0
                 /\ LET n == y[Len(y)] IN n.l = c.pre.chg /\ n.r /\ ~n.d /\ n.k = c.pre.ck

P07(c) ==
    /\ c.op \in {"addFunding", "sign"} \cup Adjusts =>
          /\ ~Crashed(c)
          /\ ChangePlacement(c)
    /\ c.op \in {"addFunding"} \cup Adjusts =>
          \E o \in Outcomes(c.op, c.pre, c.af, c.arg) : (o.e = "change") = (c.r.e = "change")
    /\ c.op = "sign" =>
          Overwrites(c.pre) \/ ((c.r.e = "change") <=> (SignFunded(c.pre) /\ \E o \in SignAdjust(c.pre, c.af) : o.e = "change"))
    /\ c.op = "breakFund" => \E o \in BreakOut(c) : (o.e = "change") = (c.r.e = "change")

---------------------------------------------------------------------------
(* P08: edits act like list operations *)

ValueEdits == {"addOutput", "insertOutput", "addPayment", "addDust", "addMax", "addMaxScript",
               "addValue", "subValue", "setDust"}

(* The value of the entry addressed by a value edit is left to P10. *)
Addressed(c) == IF c.op \in {"insertOutput", "addValue", "subValue", "setDust"} THEN c.arg.i + 1
                ELSE NOut(c.post)

MaskValue(s, i) == IF i \in 1..NOut(s) THEN [s EXCEPT !.outs[i].v = Zero] ELSE s

P08(c) ==
    /\ c.op = "new" => c.r.e = "ok" /\ Same(c.post, EmptyBuilder(c.arg.fr, c.arg.dr))
    /\ c.op \in Edits /\ c.r.e = "ok" /\ (\E o \in Outcomes(c.op, c.pre, c.af, c.arg) : o.e = "ok") =>
          \E o \in Outcomes(c.op, c.pre, c.af, c.arg) :
             o.e = "ok" /\ IF c.op \in ValueEdits
                           THEN Same(MaskValue(o.s, Addressed(c)), MaskValue(c.post, Addressed(c)))
                           ELSE Same(o.s, c.post)
    /\ c.op \in Edits => ~Crashed(c)
    /\ c.op \in Edits /\ (\A o \in Outcomes(c.op, c.pre, c.af, c.arg) : o.e = "ok") => c.r.e = "ok"
    /\ WellFormed(c.pre) => Crashed(c) \/ WellFormed(c.post)

---------------------------------------------------------------------------
(* P09: rejected calls have no effect *)

P09(c) ==
    /\ c.op \in Edits \cup Adjusts =>
          /\ ~Crashed(c)
          /\ c.r.e # "ok" => Same(c.pre, c.post)
          /\ (\A o \in Outcomes(c.op, c.pre, c.af, c.arg) : o.e # "ok") => c.r.e # "ok"
    /\ c.op = "signP2PKH" =>
          /\ ~Crashed(c)
          /\ c.r.e # "ok" => Same(c.pre, c.post)
          /\ c.arg.i >= NIn(c.pre) => c.r.e # "ok"
    /\ c.op = "oob" => c.r.e = "ok" /\ Same(c.pre, c.post)

---------------------------------------------------------------------------
(* P10: dust limits and minimums *)

P10(c) ==
    /\ c.op = "fn" /\ c.arg.f \in DustFns => FnOK(c.arg, c.r)
    /\ c.op \in ValueEdits =>
       /\ ~Crashed(c)
       /\ \E o \in Outcomes(c.op, c.pre, c.af, c.arg) :
             /\ (o.e = "ok") = (c.r.e = "ok")
             /\ (o.e = "below") = (c.r.e = "below")
             /\ Len(o.s.outs) = Len(c.post.outs)
             /\ \A i \in 1..Len(o.s.outs) : o.s.outs[i].v = c.post.outs[i].v
             /\ c.op \in {"addValue", "setDust"} =>
                   \A i \in 1..Len(o.s.outs) : o.s.outs[i].d = c.post.outs[i].d

---------------------------------------------------------------------------
(* P11: fee adjustments are exact *)

P11(c) ==
    c.op \in Adjusts =>
       /\ ~Crashed(c)
       /\ \E o \in Outcomes(c.op, c.pre, c.af, c.arg) :
             /\ o.e = c.r.e
             /\ Same(o.s, c.post)
             /\ c.op = "adjustFee" /\ c.r.e = "ok" => o.d = c.r.d

---------------------------------------------------------------------------
(* P12: signed inputs are valid *)

KeySet(c) == {c.arg.keys[i] : i \in 1..Len(c.arg.keys)}

(* What the items of an unlocking script are: the hash type of a signature or one of these *)
FormKey == 1000
FormTrue == 1002
FormFalse == 1003

Items(f, x) == Cardinality({j \in 1..Len(f) : f[j] = x})

(* Signatures of type t by as many keys as are needed and nothing else *)
FormOK(l, f, t) ==
    LET s == Script(l) IN
    CASE s.kind = "p2pkh" -> f = <<t, FormKey>>
      [] s.kind = "p2pk"  -> f = <<t>>
      [] s.kind = "multi" -> /\ Len(f) = 3 * s.req + (s.tot - s.req)
                             /\ \A x \in {t, FormKey, FormTrue} : Items(f, x) = s.req
                             /\ Items(f, FormFalse) = s.tot - s.req
      [] OTHER -> FALSE

(* Input i is signed over everything. *)
AllForkId == 65
Unlocked(s, i) == s.ok[i] = 1 /\ FormOK(s.ins[i].l, s.sf[i], AllForkId)

P12(c) ==
    /\ c.op \in Signs => ~Crashed(c)
    /\ c.op = "sign" /\ c.r.e = "ok" => \A i \in 1..NIn(c.post) : Unlocked(c.post, i)
    /\ c.op = "sign" /\ c.r.e = "missingkey" =>
          \A i \in 1..NIn(c.post) : Completable(c.post.ins[i].l, KeySet(c)) => Unlocked(c.post, i)
    /\ c.op = "signOnly" /\ c.r.e \in {"ok", "missingkey"} =>
          \A i \in 1..NIn(c.post) :
             (c.pre.ins[i].u.c = "n" /\ c.post.ins[i].u.c # "n") => Unlocked(c.post, i)
    /\ c.op = "signP2PKH" /\ c.r.e = "ok" => Unlocked(c.post, c.arg.i + 1)
    \* The interpreter doesn't accept SINGLE without an output at the same index.
    /\ c.op = "helper" /\ (BaseType(c.arg.t) # TypeSingle \/ c.arg.i < NOut(c.pre)) =>
          /\ c.r.e = "ok" /\ c.post.ok[c.arg.i + 1] = 1
          /\ FormOK(c.post.ins[c.arg.i + 1].l, c.post.sf[c.arg.i + 1], c.arg.t)
    \* A signature stays valid until something it commits to changes.
    /\ (c.pre.ver = c.post.ver /\ c.pre.lt = c.post.lt /\ NIn(c.pre) = NIn(c.post)
          /\ [i \in 1..NOut(c.pre) |-> <<c.pre.outs[i].l, c.pre.outs[i].v>>]
             = [i \in 1..NOut(c.post) |-> <<c.post.outs[i].l, c.post.outs[i].v>>]
          /\ \A i \in 1..NIn(c.pre) : c.pre.ins[i].o = c.post.ins[i].o /\ c.pre.ins[i].q = c.post.ins[i].q)
       => \A i \in 1..NIn(c.pre) :
             (c.pre.ok[i] = 1 /\ c.pre.ins[i].l = c.post.ins[i].l /\ c.pre.ins[i].v = c.post.ins[i].v
                /\ c.pre.ins[i].u = c.post.ins[i].u) => c.post.ok[i] = 1

---------------------------------------------------------------------------
(* P13: missing keys *)

AllSignable(s) == \A i \in 1..NIn(s) : Signable(s.ins[i].l)

(* The inputs a call has to sign *)
ToSign(c) == IF c.op = "sign" THEN 1..NIn(c.pre)
             ELSE {i \in 1..NIn(c.pre) : c.pre.ins[i].u.c = "n"}

(* Keys used in input i after the call *)
UsedKeys(c, i) == LET l == c.post.ins[i].l IN
    IF Script(l).kind = "p2pk" THEN Script(l).keys ELSE c.post.ins[i].u.ks

SeqSet(q) == {q[i] : i \in 1..Len(q)}

SignBy(c) ==
    LET keys == KeySet(c)
        done == {i \in ToSign(c) : Completable(c.pre.ins[i].l, keys)}
    IN  /\ (c.r.e = "missingkey") = (done # ToSign(c))
        /\ \A i \in ToSign(c) \ done : c.post.ins[i].u = c.pre.ins[i].u
        /\ \A i \in done :
              /\ c.post.ins[i].u.c = "s"
              /\ Len(UsedKeys(c, i)) = Script(c.pre.ins[i].l).req
              /\ SeqSet(UsedKeys(c, i)) \subseteq keys \cap SeqSet(Script(c.pre.ins[i].l).keys)
        /\ SeqSet(c.r.ks) = UNION {SeqSet(UsedKeys(c, i)) : i \in done}
        /\ Cardinality(SeqSet(c.r.ks)) = Len(c.r.ks)

P13(c) ==
    /\ c.op \in Signs => ~Crashed(c)
    /\ c.op \in {"sign", "signOnly"} /\ NIn(c.pre) = NIn(c.post) /\ c.r.e \in {"ok", "missingkey"} => SignBy(c)
    \* A script that isn't supported is not reported as a missing key.
    /\ c.op \in {"sign", "signOnly"} /\ (\E i \in ToSign(c) : ~Signable(c.pre.ins[i].l)) => c.r.e \notin {"ok", "missingkey"}
    /\ c.op = "signOnly" /\ (\A i \in ToSign(c) : Signable(c.pre.ins[i].l)) => c.r.e \in {"ok", "missingkey"}
    /\ c.op = "sign" /\ SignFunded(c.pre) /\ AllSignable(c.pre) /\ ~Overwrites(c.pre)
          /\ (\A o \in SignAdjust(c.pre, c.af) : o.e = "ok") => c.r.e \in {"ok", "missingkey"}
    /\ c.op = "signP2PKH" =>
          LET i == c.arg.i + 1 IN
          (c.r.e = "ok") <=> (i <= NIn(c.pre) /\ Script(c.pre.ins[i].l).kind = "p2pkh"
                              /\ Script(c.pre.ins[i].l).keys = c.arg.keys)

---------------------------------------------------------------------------
(* P14: signing without fee adjustment *)

P14(c) ==
    c.op \in {"signOnly", "signP2PKH"} =>
       /\ ~Crashed(c)
       /\ SameBut(c.pre, c.post, {"ins"})
       /\ NIn(c.pre) = NIn(c.post)
       /\ NoUnlocks(c.pre.ins) = NoUnlocks(c.post.ins)
       /\ \A i \in 1..NIn(c.pre) :
             (IF c.op = "signOnly" THEN c.pre.ins[i].u.c # "n" ELSE i # c.arg.i + 1)
                => c.post.ins[i].u = c.pre.ins[i].u

---------------------------------------------------------------------------
(* P17: the estimated size bounds the signed size *)

RECURSIVE SigsFrom(_, _)
SigsFrom(ins, i) == IF i > Len(ins) THEN 0 ELSE SigCount(ins[i].l) + SigsFrom(ins, i + 1)

P17(c) ==
    /\ c.op = "sign" /\ c.r.e = "ok" =>
          LET est == c.r.est
              ser == c.r.ser
          IN  est >= ser /\ est - ser <= 8 * SigsFrom(c.post.ins, 1)
    /\ c.op = "fn" /\ c.arg.f \in SizeFns => FnOK(c.arg, c.r)
    /\ c.op = "signOnly" /\ c.r.e = "ok" /\ AllSignable(c.post) =>
          c.r.est >= c.r.ser \/ \E i \in 1..NIn(c.pre) : c.pre.ins[i].u.c # "n"

---------------------------------------------------------------------------
(* P28: signing again *)

(* c.arg.again: "" or the result of the sign call directly before with the same ("same") or *)
(* fewer ("fewer") keys                                                                    *)
P28(c) ==
    /\ c.op = "sign" => ~Crashed(c)
    /\ c.op = "sign" /\ c.arg.again = "same:ok" => c.r.e = "ok" /\ Same(c.pre, c.post)
    /\ c.op = "sign" /\ c.arg.again = "fewer:missingkey" /\ ~Overwrites(c.pre)
          /\ (\A i \in 1..NIn(c.pre) : Completable(c.pre.ins[i].l, KeySet(c))) => c.r.e = "ok"

---------------------------------------------------------------------------
(* P29: sending everything *)

Remainders(s) == {i \in 1..NOut(s) : s.outs[i].r}

P29(c) ==
    /\ c.op \in FeeCalls \cup Signs => c.post.sm = c.pre.sm
    /\ c.op = "addFunding" /\ c.pre.sm /\ Cardinality(Remainders(c.pre)) = 1 =>
       LET j == FirstRem(c.pre)
           known == \A i \in 1..Len(c.arg.us) : InSize(c.arg.us[i].l) >= 0
       IN  /\ ~Crashed(c)
           /\ known /\ Len(c.arg.us) > 0 =>
                 /\ \A i \in 1..Len(c.arg.us) : Spends(c.post, c.arg.us[i].o)
                 /\ Distinct(c.pre) => Distinct(c.post)
           /\ c.r.e = "ok" /\ c.af[j] = "n" =>
                 /\ NOut(c.post) = NOut(c.pre)
                 /\ \A i \in 1..NOut(c.pre) : i # j => c.post.outs[i] = c.pre.outs[i]
                 /\ Fee(c.post) = EstFee(c.post)
           /\ known => \E o \in Outcomes(c.op, c.pre, c.af, c.arg) : o.e = c.r.e

---------------------------------------------------------------------------
(* P15: signature hashes *)

SigHashCall(c) ==
    /\ ~Crashed(c)
    /\ SigHashOK(c.pre, c.arg, c.r)
    /\ c.r.e = "ok" => SameHash(c.seen, Committed(c.pre, c.arg), c.r.h)

P15(c) ==
    /\ c.op = "sighash" /\ c.arg.c = "" => SigHashCall(c)
    /\ c.op = "cacheHash" /\ c.arg.c = "" => ~Crashed(c) /\ c.r.same

---------------------------------------------------------------------------
(* P16: the cache doesn't change results *)

P16(c) ==
    /\ c.op = "sighash" /\ c.arg.c # "" /\ Valid(c.cache, c.pre) => SigHashCall(c)
    /\ c.op = "cacheHash" /\ c.arg.c # "" /\ ValidFor(c.cache, c.pre, c.arg.f) => ~Crashed(c) /\ c.r.same

---------------------------------------------------------------------------
(* P18, P19: breaking values and quantities *)

Factorial(n) == CASE n <= 1 -> 1 [] n = 2 -> 2 [] n = 3 -> 6 [] n = 4 -> 24

AllKinds(c) ==
    /\ c.r.e = "ok"
    /\ KindsOK(c.arg.v, c.arg.bv, c.arg.n, {c.r.plain[i] : i \in 1..Len(c.r.plain)})
    /\ KindsOK(c.arg.v, c.arg.bv, c.arg.n, {c.r.varied[i] : i \in 1..Len(c.r.varied)})

P18(c) ==
    /\ c.op = "break" =>
          /\ ~Crashed(c)
          /\ c.r.e = "ok" => BreakOK(c.arg.v, c.arg.bv, c.arg.addrs, c.arg.fr, c.arg.last, c.arg.sub, c.r.outs)
          /\ (\A i \in 1..Len(c.arg.addrs) : Usable(c.arg.addrs[i])) => c.r.e = "ok"
    /\ c.op = "breakOrders" /\ c.arg.f # "quantity" =>
          /\ c.r.e = "ok"
          /\ Len(c.r.orders) = Factorial(c.arg.n)
          /\ \A j \in 1..Len(c.r.orders) : SameBag(c.r.orders[j], [i \in 1..c.arg.n |-> i - 1])
    /\ c.op = "breakKinds" /\ c.arg.f # "quantity" => AllKinds(c)

P19(c) ==
    /\ c.op = "breakQ" => c.r.e = "ok" /\ QuantityOK(c.arg.v, c.arg.bv, c.arg.n, c.r.vs)
    /\ c.op = "breakOrders" /\ c.arg.f = "quantity" => c.r.e = "ok" /\ Len(c.r.orders) = c.arg.n
    /\ c.op = "breakKinds" /\ c.arg.f = "quantity" => AllKinds(c)

---------------------------------------------------------------------------
(* P20: shuffling *)

P20(c) ==
    /\ c.op \in {"randomize", "randomizeAfter"} =>
          /\ c.r.e = "ok"
          /\ SameBut(c.pre, c.post, {"outs"})
          /\ SameBag(c.pre.outs, c.post.outs)
          /\ c.op = "randomizeAfter" =>
                \A i \in 1..NOut(c.pre) : i <= c.arg.i + 1 => c.pre.outs[i] = c.post.outs[i]
    /\ c.op = "perms" =>
          /\ c.r.e = "ok"
          /\ Len(c.r.orders) = Factorial(c.arg.n - (c.arg.i + 1))
          /\ \A j \in 1..Len(c.r.orders) :
                /\ SameBag(c.r.orders[j], [i \in 1..c.arg.n |-> i - 1])
                /\ \A i \in 1..(c.arg.i + 1) : c.r.orders[j][i] = i - 1
    /\ c.shuf /\ c.op \in Adjusts => P11(c)

---------------------------------------------------------------------------
(* P21: independence *)

P21(c) ==
    /\ ~c.m
    /\ \A n \in DOMAIN c.before : n # c.b => n \in DOMAIN c.after /\ c.after[n] = c.before[n]
    /\ c.op = "copy" => c.r.e = "ok" /\ c.post = c.before[c.arg.src]
    /\ c.op = "copy" /\ "in" \in DOMAIN c.q => ReportsOK(c.post, c.q)
    /\ c.twin # <<>> /\ c.twin[1].before = c.pre => c.twin[1].r.e = c.r.e /\ c.twin[1].after = c.post

---------------------------------------------------------------------------
(* P22: imports *)

NoData(tx) == [i \in 1..Len(tx.ins) |-> FALSE]

P22(c) ==
    /\ c.op = "import" =>
          LET x    == c.arg
              zero == IF x.f = "two" THEN x.zero ELSE NoData(x.tx)
              miss == MissingData(x.tx, zero, x.data)
          IN  /\ ~Crashed(c)
              /\ c.r.e = (IF miss THEN (IF x.f = "two" THEN "other" ELSE "missinginput") ELSE "ok")
              /\ ~(miss /\ x.f = "two") =>
                    /\ ~c.r.nil
                    /\ Same(c.post, Imported(x.tx, zero, x.data, x.f = "utxos", x.fr, x.dr))
                    /\ "in" \in DOMAIN c.q => TotalsOK(c.post, c.q)
    /\ c.op = "reimport" =>
          LET x    == c.arg
              s    == c.before[x.src]
              data == KnownData(s.ins, 1)
              miss == MissingData(s, x.zero, data)
          IN  /\ ~Crashed(c)
              /\ (c.r.e = "ok") = ~miss
              /\ ~miss => ~c.r.nil /\ Same(c.post, Imported(s, x.zero, data, FALSE, x.fr, x.dr))
    /\ c.imp => ~Crashed(c)

---------------------------------------------------------------------------
(* P24: the fees package *)

P24(c) ==
    /\ c.op = "fn" /\ c.arg.f \in FeeFns => FnOK(c.arg, c.r)
    /\ c.op = "feestx" => FeesTxOK(c.pre, c.arg, c.r)

---------------------------------------------------------------------------
(* P25: reported totals *)

P25(c) ==
    /\ "in" \in DOMAIN c.q => ReportsOK(c.post, c.q) /\ c.q.same
    /\ ~(Crashed(c) /\ "read" \in DOMAIN c.r)

---------------------------------------------------------------------------
(* P23: embedded unlocking data *)

HasEmbedded(s) == \E i \in 1..NIn(s) : s.ins[i].u.c = "d"

P23(c) ==
    HasEmbedded(c.pre) \/ HasEmbedded(c.post) =>
       /\ P02(c) /\ P04(c) /\ P11(c)
       /\ ~(Crashed(c) /\ "read" \in DOMAIN c.r)
       /\ "in" \in DOMAIN c.q => TotalsOK(c.post, c.q)
       /\ c.op = "feestx" => FeesTxOK(c.pre, c.arg, c.r)

---------------------------------------------------------------------------
(* P26: funding with broken change *)

NewOutputs(c) == SubSeq(c.post.outs, NOut(c.pre) + 1, NOut(c.post))

P26(c) ==
    c.op = "breakFund" =>
       /\ ~Crashed(c)
       /\ c.r.e = "ok" /\ ~c.pre.sm =>
             \E o \in BreakOut(c) :
                /\ o.e = "ok"
                /\ c.post.chg = o.s.chg /\ c.post.ck = o.s.ck
                /\ IF o.how = "break"
                   THEN /\ NOut(c.post) >= NOut(c.pre)
                        /\ SubSeq(c.post.outs, 1, NOut(c.pre)) = c.pre.outs
                        /\ Leading(NewOutputs(c), c.arg.addrs)
                        /\ \A i \in 1..Len(NewOutputs(c)) : Usable(NewOutputs(c)[i])
                        /\ Marked(NewOutputs(c), c.arg.addrs, TRUE)
                        /\ Conserved(o.v, c.arg.addrs, c.pre.fr, TRUE, NewOutputs(c))
                   ELSE o.s.outs = c.post.outs

---------------------------------------------------------------------------
(* P30: printed and serialized forms *)

P30(c) == c.op = "text" =>
    ~Crashed(c) /\ DecodedOK(c.pre, c.r) /\ StringOK(c.pre, c.r.str) /\ TxStringOK(c.pre, FALSE, c.r.two)
    /\ TxStringOK(c.pre, TRUE, c.r.bare) /\ JsonOK(c.pre, c.r.js)

---------------------------------------------------------------------------
(* P31: builders used at the same time.  The state of a builder is changed  *)
(* by its own calls only, so the order of calls on different builders does  *)
(* not matter: conc says that the outcome was the same when the history was *)
(* made at the same time as others.  Memory shared by calls on different    *)
(* builders is recorded as "race", which is no step of any builder.         *)

P31(c) ==
    /\ c.op # "race"
    /\ "conc" \in DOMAIN c.r => c.r.conc
    /\ c.op = "together" => ~Crashed(c) /\ c.r.same /\ c.post = c.pre

---------------------------------------------------------------------------
(* P27: transactions printed by the command line tool *)

RECURSIVE AddInputs(_, _, _)
AddInputs(s, us, i) ==
    IF i > Len(us) THEN Ok(s, <<>>)
    ELSE UNION {IF o.e = "ok" THEN AddInputs(o.s, us, i + 1) ELSE {o} : o \in AddInput(s, <<>>, us[i])}

(* The builder before signing the k-th transaction, as outcomes. *)
ToolState(x, k, r) ==
    LET new == EmptyBuilder(x.fr, x.dr)
        us  == IF k = 1 THEN x.us
               ELSE <<[o |-> "p" \o ToString(k - 1) \o ":0", l |-> r.txs[k - 1].outs[1].l,
                       v |-> r.txs[k - 1].outs[1].v, k |-> "", s |-> "ok"]>>
        pay(o) == IF o.e # "ok" THEN {o}
                  ELSE IF x.cmd = "create_send" /\ x.to # x.key
                  THEN AddToAddress(o.s, o.a, Script(x.to).adr, x.to, x.v, FALSE, FALSE)
                  ELSE IF x.cmd = "consolidate" THEN AddOutput(o.s, o.a, x.to, Zero, TRUE, TRUE)
                  ELSE {o}
        chg(o) == IF o.e # "ok" \/ x.cmd = "consolidate" THEN {o} ELSE SetChange(o.s, o.a, TRUE, x.key, "")
        bad == x.bad \/ (k = 1 /\ x.cmd # "consolidate" /\ (x.us = <<>> \/ \E i \in 1..Len(us) : us[i].s # "ok"))
    IN  IF bad THEN Reject(new, <<>>, "other")
        ELSE UNION {UNION {chg(p) : p \in pay(o)} : o \in AddInputs(new, us, 1)}

(* The builder after signing, as far as the printed transaction shows it. *)
Printed(s, t) ==
    [s EXCEPT !.ver = t.ver, !.lt = t.lt, !.si = Len(t.ins), !.so = Len(t.outs),
        !.ins = [i \in 1..Len(t.ins) |->
            [o |-> t.ins[i].o, q |-> t.ins[i].q, l |-> s.ins[i].l, v |-> s.ins[i].v, k |-> "",
             u |-> [NoUnlock EXCEPT !.c = "s", !.n = t.ins[i].n]]],
        !.outs = [i \in 1..Len(t.outs) |->
            IF i <= NOut(s) THEN [s.outs[i] EXCEPT !.l = t.outs[i].l, !.v = t.outs[i].v]
            ELSE NewOutput(t.outs[i].l, t.outs[i].v, TRUE, FALSE, "")]]

Spent(s) == {s.ins[i].o : i \in 1..NIn(s)}

(* The inputs of s in the order of the printed transaction. *)
InOrder(s, t) ==
    [s EXCEPT !.ins = [i \in 1..NIn(s) |-> s.ins[CHOOSE j \in 1..NIn(s) : s.ins[j].o = t.ins[i].o]]]

PrintedOK(s, marks, t, ext) ==
    /\ \A i \in 1..NIn(s) : t.ins[i].ok = 1
    /\ Len(t.outs) > 0
    /\ \A i \in 1..Len(t.outs) : t.outs[i].l > 0
    /\ LET y == Printed(s, t)
           c == [op |-> "sign", b |-> "", arg |-> [keys |-> <<>>], r |-> [e |-> "ok"], pre |-> s, post |-> y, af |-> marks]
       IN  /\ y.ver = s.ver /\ y.lt = s.lt
           /\ \A i \in 1..NIn(s) : y.ins[i].q = s.ins[i].q
           /\ P01(c) /\ P02(c) /\ P03(c) /\ P04(c) /\ P07(c)
    /\ ext => /\ t.ext /\ t.same
              /\ Len(t.xs) = NIn(s)
              /\ \A i \in 1..NIn(s) : t.xs[i].l = s.ins[i].l /\ t.xs[i].v = s.ins[i].v

(* There may be nothing to print. *)
Refusable(x, o) ==
    \/ o.e # "ok"
    \/ \E i \in 1..NIn(o.s) : ~Completable(o.s.ins[i].l, {x.key})
    \/ ~SignFunded(o.s)
    \/ NOut(o.s) = 0 /\ Le(Surplus(o.s), Amount(Unchangeable(o.s, o.s.chg)))

P27(c) == c.op = "cli" =>
    LET x == c.arg
        n == Len(c.r.txs)
        wanted == IF x.cmd = "create_sends" THEN x.n ELSE 1
    IN  /\ c.r.e \in {"ok", "exit"}
        /\ n <= wanted
        /\ \A k \in 1..n :
              \E o \in ToolState(x, k, c.r) :
                 /\ o.e = "ok"
                 /\ Len(c.r.txs[k].ins) = NIn(o.s)
                 /\ Spent(o.s) = {c.r.txs[k].ins[i].o : i \in 1..NIn(o.s)}
                 /\ PrintedOK(InOrder(o.s, c.r.txs[k]), o.a, c.r.txs[k], x.cmd # "consolidate")
        /\ n < wanted => \E o \in ToolState(x, n + 1, c.r) : Refusable(x, o)
        /\ c.r.cum # "different"
        /\ x.cmd = "create_sends" /\ n = wanted => c.r.cum = "same"

---------------------------------------------------------------------------

PropIds == {"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13",
            "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24", "P25", "P26",
            "P27", "P28", "P29", "P30", "P31"}

Holds(p, c) ==
    CASE p = "P01" -> P01(c) [] p = "P02" -> P02(c) [] p = "P03" -> P03(c) [] p = "P04" -> P04(c)
      [] p = "P05" -> P05(c) [] p = "P06" -> P06(c) [] p = "P07" -> P07(c) [] p = "P08" -> P08(c)
      [] p = "P09" -> P09(c) [] p = "P10" -> P10(c) [] p = "P11" -> P11(c) [] p = "P12" -> P12(c)
      [] p = "P13" -> P13(c) [] p = "P14" -> P14(c) [] p = "P15" -> P15(c) [] p = "P16" -> P16(c)
      [] p = "P17" -> P17(c) [] p = "P18" -> P18(c) [] p = "P19" -> P19(c) [] p = "P20" -> P20(c)
      [] p = "P21" -> P21(c) [] p = "P22" -> P22(c) [] p = "P23" -> P23(c) [] p = "P24" -> P24(c)
      [] p = "P25" -> P25(c) [] p = "P26" -> P26(c) [] p = "P28" -> P28(c) [] p = "P29" -> P29(c)
      [] p = "P27" -> P27(c) [] p = "P30" -> P30(c) [] p = "P31" -> P31(c)

=============================================================================
