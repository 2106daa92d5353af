------------------------------ MODULE Reports ------------------------------
(***************************************************************************)
(* What is reported about a transaction: totals, stand-alone size and fee  *)
(* functions, the fees package, imports and printed forms.                 *)
(***************************************************************************)
EXTENDS Builder

Positive(a) == IF IsNeg(a) THEN Zero ELSE a

RECURSIVE RecoverFrom(_, _)
RecoverFrom(s, i) ==
    IF i > NOut(s) THEN Zero
    ELSE IF s.outs[i].r
    THEN Plus(PlusN(s.outs[i].v, FeeDownN(OutSize(s.outs[i].l), s.fr)), RecoverFrom(s, i + 1))
    ELSE RecoverFrom(s, i + 1)

KnownOutput(in) == in.l # 0 \/ in.v # Zero

(* q is the record of everything read from a builder with state s *)
TotalsOK(s, q) ==
    /\ q.in = InTotal(s) /\ q.out = OutTotal(s) /\ q.onc = OutTotalNoChange(s)
    /\ q.fee = Positive(Fee(s)) /\ q.af = Fee(s)
    /\ q.es = EstSize(s) /\ q.ef = EstFee(s)

ReportsOK(s, q) ==
    /\ TotalsOK(s, q)
    /\ q.rem = RecoverFrom(s, 1)
    /\ q.ni = NIn(s) /\ q.no = NOut(s) /\ q.ser = SerSize(s)
    /\ q.all = (\A i \in 1..NIn(s) : s.ins[i].u.n > 0)
    /\ Len(q.sg) = NIn(s) /\ Len(q.io) = NIn(s) /\ Len(q.oo) = NOut(s)
    /\ \A i \in 1..NIn(s) :
          LET in == s.ins[i] IN
          /\ q.sg[i] = (in.u.n > 0)
          /\ q.io[i].o = in.o
          /\ IF KnownOutput(in) THEN q.io[i].l = in.l /\ q.io[i].v = in.v ELSE q.io[i].l = -7
          /\ Script(in.l).adr => q.ia[i] = in.l
    /\ \A i \in 1..NOut(s) :
          /\ q.oo[i].l = s.outs[i].l /\ q.oo[i].v = s.outs[i].v
          /\ Script(s.outs[i].l).adr => q.oa[i] = s.outs[i].l
    /\ q.msg

---------------------------------------------------------------------------
(* Stand-alone functions *)

VarIntA(v) == IF Lt(v, Amount(253)) THEN 1 ELSE IF Le(v, Amount(65535)) THEN 3
              ELSE IF Le(v, <<4, 294967295>>) THEN 5 ELSE 9

Value(n)     == [e |-> TRUE, x |-> <<Amount(n)>>]
Values(n, m) == [e |-> TRUE, x |-> <<Amount(n), Amount(m)>>]
Failure      == [e |-> FALSE, x |-> <<>>]

IfSpendable(l, r) == IF UnlockSize(l) < 0 THEN Failure ELSE r
IfAddress(l, r)   == IF Script(l).adr THEN r ELSE Failure

(* a is [f function, l script, fr, dr rates, n size, v value] *)
FnResult(a) ==
    CASE a.f \in {"UnlockingScriptSize", "f.UnlockingSize"} -> IfSpendable(a.l, Value(UnlockSize(a.l)))
      [] a.f = "InputSize"       -> IfSpendable(a.l, Value(InSize(a.l)))
      [] a.f \in {"OutputSize", "f.OutputSize"} -> Value(OutSize(a.l))
      [] a.f = "VarInt"          -> Value(VarIntA(a.v))
      [] a.f \in {"FeeValue", "f.FeeValue"} -> Value(FeeUpN(a.n, a.fr))
      [] a.f = "FeeValueDown"    -> Value(FeeDownN(a.n, a.fr))
      [] a.f = "DustLimit"       -> Value(DustN(a.n, a.dr))
      [] a.f \in {"DustForOutput", "DustForScript"} -> Value(DustN(OutSize(a.l), a.dr))
      [] a.f = "DustForAddress"  -> IfAddress(a.l, Value(DustN(OutSize(a.l), a.dr)))
      [] a.f = "OutFeeDust"      -> Values(OutFeeN(a.l, a.fr), DustN(OutSize(a.l), a.dr))
      [] a.f = "OutFeeDustAddr"  -> IfAddress(a.l, Values(OutFeeN(a.l, a.fr), DustN(OutSize(a.l), a.dr)))
      [] a.f \in {"TotalCost", "f.TotalCost"} -> IfSpendable(a.l, Values(OutFeeN(a.l, a.fr), InFeeN(a.l, a.fr)))
      [] a.f \in {"UTXOFee", "InFee"} -> IfSpendable(a.l, Value(InFeeN(a.l, a.fr)))
      [] a.f = "UTXOSizeFee"     -> IfSpendable(a.l, Values(InSize(a.l), InFeeN(a.l, a.fr)))
      [] a.f = "AddrOutFee"      -> IfAddress(a.l, Value(OutFeeN(a.l, a.fr)))
      [] a.f \in {"OutFee", "f.OutFee"} -> Value(OutFeeN(a.l, a.fr))
      [] a.f = "f.InputSizeFor"  -> Value(InputSizeFor(a.n))
      [] a.f = "f.OutputSizeFor" -> Value(OutSizeFor(a.n))
      [] a.f = "f.DustLimit"     -> Value(DustUpN(a.n, a.dr))
      [] a.f \in {"f.DustForOutput", "f.DustForScript"} -> Value(DustUpN(OutSize(a.l), a.dr))
      [] a.f = "f.DustForSize"   -> Value(DustUpN(OutSizeFor(a.n), a.dr))
      [] a.f = "f.OutFeeDust"    -> Values(OutFeeN(a.l, a.fr), DustUpN(OutSize(a.l), a.dr))
      [] a.f = "f.OutSizeDust"   -> Values(OutSize(a.l), DustUpN(OutSize(a.l), a.dr))

FnOK(a, r) ==
    LET e == FnResult(a) IN
    IF e.e THEN r.e = "ok" /\ r.x = e.x ELSE r.e \notin {"ok", "panic", "hang"}

DustFns == {"DustLimit", "DustForOutput", "DustForAddress", "DustForScript", "OutFeeDust", "OutFeeDustAddr"}
FeeFns  == {"f.FeeValue", "f.UnlockingSize", "f.TotalCost", "f.InputSizeFor", "f.OutputSize",
            "f.OutputSizeFor", "f.DustLimit", "f.DustForOutput", "f.DustForScript", "f.DustForSize",
            "f.OutFee", "f.OutFeeDust", "f.OutSizeDust"}
SizeFns == {"UnlockingScriptSize", "InputSize", "OutputSize", "VarInt", "FeeValue", "FeeValueDown",
            "TotalCost", "UTXOFee", "UTXOSizeFee", "InFee", "AddrOutFee", "OutFee"}

---------------------------------------------------------------------------
(* The fees package on a whole transaction.  a is [fr rate, unl scripts    *)
(* that can't be unlocked, i input whose spent output is not known or -1]. *)
(* The unlocker's size for a script is three times its length plus its     *)
(* number.                                                                 *)

FInSize(in, a) ==
    IF in.l # 0
    THEN (IF \E n \in 1..Len(a.unl) : a.unl[n] = in.l THEN -1 ELSE InputSizeFor(3 * Script(in.l).len + in.l))
    ELSE IF in.u.c = "d" THEN InputSizeFor(in.u.z) ELSE -1

FHasValue(in) == in.v # Zero \/ in.u.c = "d"

RECURSIVE FInSizes(_, _, _)
FInSizes(ins, a, i) == IF i > Len(ins) THEN 0 ELSE FInSize(ins[i], a) + FInSizes(ins, a, i + 1)

FKnown(s, a) == a.i < 0 \/ a.i >= NIn(s)
FSizeKnown(s, a)  == FKnown(s, a) /\ \A i \in 1..NIn(s) : FInSize(s.ins[i], a) >= 0
FValueKnown(s, a) == FKnown(s, a) /\ \A i \in 1..NIn(s) : FHasValue(s.ins[i])
FSize(s, a) == 8 + VarInt(NIn(s)) + VarInt(NOut(s)) + FInSizes(s.ins, a, 1) + OutSizeFrom(s.outs, 1)

Given(r, known, x) == IF known THEN r.e = "ok" /\ r.x = x ELSE r.e = "err"

FeesTxOK(s, a, r) ==
    LET size  == IF FSizeKnown(s, a) THEN FSize(s, a) ELSE 0
        value == IF FValueKnown(s, a) THEN InTotal(s) ELSE Zero
    IN  /\ r.e = "ok"
        /\ Given(r.size, FSizeKnown(s, a), Amount(size))
        /\ Given(r.est, FSizeKnown(s, a), FeeUp(size, a.fr))
        /\ Given(r.in, FValueKnown(s, a), value)
        /\ r.out = OutTotal(s)
        /\ Given(r.fee, FValueKnown(s, a), Minus(value, OutTotal(s)))
        /\ Len(r.sizes) = NIn(s) /\ Len(r.values) = NIn(s)
        /\ \A i \in 1..NIn(s) :
              /\ Given(r.sizes[i], FInSize(s.ins[i], a) >= 0, Amount(FInSize(s.ins[i], a)))
              /\ Given(r.values[i], FHasValue(s.ins[i]), InValue(s.ins[i]))

---------------------------------------------------------------------------
(* Imports.  data is a sequence of [o, l, v, k]. *)

RECURSIVE Lookup(_, _, _)
Lookup(data, o, i) == IF i > Len(data) THEN 0 ELSE IF data[i].o = o THEN i ELSE Lookup(data, o, i + 1)

ImportedInput(in, zero, data, keys) ==
    LET n == IF zero THEN 0 ELSE Lookup(data, in.o, 1) IN
    [o |-> in.o, q |-> in.q, u |-> in.u,
     l |-> IF n = 0 THEN 0 ELSE data[n].l,
     v |-> IF n = 0 THEN Zero ELSE data[n].v,
     k |-> IF n = 0 \/ ~keys THEN "" ELSE data[n].k]

Plain(o) == [l |-> o.l, v |-> o.v, r |-> FALSE, d |-> FALSE, k |-> ""]

(* tx is [ver, lt, ins, outs]; zero says which inputs are not looked up *)
Imported(tx, zero, data, keys, fr, dr) ==
    LET ins == [i \in 1..Len(tx.ins) |-> ImportedInput(tx.ins[i], zero[i], data, keys)] IN
    [ver |-> tx.ver, lt |-> tx.lt, ins |-> ins,
     outs |-> [i \in 1..Len(tx.outs) |-> Plain(tx.outs[i])],
     si |-> Len(tx.ins), so |-> Len(tx.outs), chg |-> 0, ck |-> "", sm |-> FALSE, fr |-> fr, dr |-> dr]

MissingData(tx, zero, data) == \E i \in 1..Len(tx.ins) : ~zero[i] /\ Lookup(data, tx.ins[i].o, 1) = 0

None(zero) == [i \in 1..Len(zero) |-> FALSE]

(* what a builder knows about the outputs its inputs spend *)
RECURSIVE KnownData(_, _)
KnownData(ins, i) ==
    IF i > Len(ins) THEN <<>>
    ELSE (IF KnownOutput(ins[i]) THEN <<[o |-> ins[i].o, l |-> ins[i].l, v |-> ins[i].v, k |-> ins[i].k]>> ELSE <<>>)
         \o KnownData(ins, i + 1)

---------------------------------------------------------------------------
(* Serialized and printed forms *)

DecodedOK(s, r) ==
    /\ r.e = "ok" /\ r.exact /\ r.id
    /\ r.len = SerSize(s)
    /\ r.dec.ver = s.ver /\ r.dec.lt = s.lt
    /\ Len(r.dec.ins) = NIn(s) /\ Len(r.dec.outs) = NOut(s)
    /\ \A i \in 1..NIn(s) :
          r.dec.ins[i].o = s.ins[i].o /\ r.dec.ins[i].q = s.ins[i].q /\ r.dec.ins[i].u = s.ins[i].u
    /\ \A i \in 1..NOut(s) : r.dec.outs[i].l = s.outs[i].l /\ r.dec.outs[i].v = s.outs[i].v

HasAddress(l) == l > 0 /\ Script(l).adr

StringOK(s, p) ==
    /\ p.id /\ p.ser = SerSize(s) /\ p.est = EstSize(s) /\ p.fee = Positive(Fee(s))
    /\ p.ver = s.ver /\ p.lt = s.lt
    /\ Len(p.ins) = NIn(s) /\ Len(p.outs) = NOut(s)
    /\ \A i \in 1..NIn(s) :
          LET x == p.ins[i]
              in == s.ins[i]
          IN  x.o = in.o /\ x.q = in.q /\ x.v = in.v /\ x.k = in.k /\ x.us /\ x.ls
              /\ (HasAddress(in.l) => x.any) /\ (x.any => x.adr)
    /\ \A i \in 1..NOut(s) :
          LET x == p.outs[i]
              o == s.outs[i]
          IN  x.v = o.v /\ x.k = o.k /\ x.r = o.r /\ x.d = o.d /\ x.ls
              /\ (HasAddress(o.l) => x.any) /\ (x.any => x.adr)

(* the data of inputs and outputs as JSON *)
JsonOK(s, j) ==
    /\ j.back
    /\ j.ins = [i \in 1..NIn(s) |-> [l |-> s.ins[i].l, v |-> s.ins[i].v, k |-> s.ins[i].k]]
    /\ j.outs = [i \in 1..NOut(s) |-> [r |-> s.outs[i].r, d |-> s.outs[i].d, k |-> s.outs[i].k]]

NotShown == <<-1, 0>>

(* What is printed when the outputs spent by inputs with embedded data only can be hidden or not. *)
Shown(in, hide)      == KnownOutput(in) /\ ~(hide /\ in.u.c = "d" /\ in.l = 0)
ShownSize(in, hide)  == IF Shown(in, hide) THEN UnlockSize(in.l) >= 0 ELSE in.u.c = "d" /\ in.u.z > 0
ShownValue(in, hide) == IF Shown(in, hide) THEN in.v # Zero \/ in.u.c # "d" ELSE in.u.c = "d" /\ in.u.y # Zero

(* What can't be known: an input without output and without unlocking script or data, an output of *)
(* unknown kind. An input with another unlocking script may count with the size it has.            *)
NoSize(in, hide) == IF Shown(in, hide) THEN UnlockSize(in.l) < 0
                    ELSE in.u.c = "n" \/ (in.u.c = "d" /\ in.u.z = 0)
AsSigned(ins, hide) == [i \in 1..Len(ins) |-> IF Shown(ins[i], hide) \/ ins[i].u.c # "s" THEN InEst(ins[i]) ELSE InputSizeFor(ins[i].u.n)]

RECURSIVE AddUp(_, _)
AddUp(q, i) == IF i > Len(q) THEN 0 ELSE q[i] + AddUp(q, i + 1)

ShownTotal(s, hide) == SumFrom([i \in 1..NIn(s) |-> IF Shown(s.ins[i], hide) THEN s.ins[i].v ELSE s.ins[i].u.y], 1)

TxStringOK(s, hide, p) ==
    /\ p.id /\ p.ni = NIn(s) /\ p.no = NOut(s) /\ p.lt = s.lt /\ p.raw = SerSize(s)
    /\ Len(p.ins) = NIn(s) /\ Len(p.outs) = NOut(s)
    /\ \A i \in 1..NIn(s) :
          LET x == p.ins[i]
              in == s.ins[i]
          IN  /\ x.o = in.o /\ x.q = in.q /\ x.us
              /\ IF Shown(in, hide)
                 THEN x.ls /\ x.v = in.v /\ x.est = UnlockSize(in.l)
                 ELSE x.v = NotShown /\ x.est = -1
                      /\ (in.u.c = "d" => /\ x.z = IF in.u.z > 0 THEN in.u.z ELSE -1
                                          /\ x.y = IF in.u.y # Zero THEN in.u.y ELSE NotShown)
    /\ \A i \in 1..NOut(s) : p.outs[i].v = s.outs[i].v /\ p.outs[i].ls
    /\ (\A i \in 1..NIn(s) : ShownSize(s.ins[i], hide)) => p.est = EstSize(s)
    \* Nothing is made up when data is missing.
    /\ IF \E i \in 1..NIn(s) : NoSize(s.ins[i], hide) THEN p.est = -1
       ELSE p.est \in {-1, EstSize(s) - InEstFrom(s.ins, 1) + AddUp(AsSigned(s.ins, hide), 1)}
    /\ (\E i \in 1..NIn(s) : ~Shown(s.ins[i], hide) /\ ~ShownValue(s.ins[i], hide)) => p.kind = "none"
    /\ p.est = -1 \/ p.kind # "fee" => p.rate = "none"
    /\ (\A i \in 1..NIn(s) : ShownValue(s.ins[i], hide)) =>
          LET fee == Minus(ShownTotal(s, hide), OutTotal(s)) IN
          /\ p.in = ShownTotal(s, hide) /\ p.out = OutTotal(s)
          /\ IF IsNeg(fee) THEN p.kind = "neg" /\ p.fee = Neg(fee)
             ELSE p.kind = "fee" /\ p.fee = fee
                  /\ ((\A i \in 1..NIn(s) : ShownSize(s.ins[i], hide)) => p.rate = "ok")

=============================================================================
