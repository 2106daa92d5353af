------------------------------- MODULE Sizes -------------------------------
(***************************************************************************)
(* Serialized sizes, fees and dust limits.                                 *)
(*                                                                         *)
(* Scripts is a sequence of records describing the locking scripts that    *)
(* states refer to by number (0 is the empty script).  Rates is a sequence *)
(* of exact fee rates [m, k] meaning m / 2^k satoshis per byte; m < 2^24.  *)
(***************************************************************************)
EXTENDS Amt

CONSTANTS Scripts, Rates

EmptyScript == [kind |-> "empty", len |-> 0, req |-> 0, tot |-> 0, keys |-> <<>>,
                un |-> FALSE, adr |-> FALSE, base |-> 0, sub |-> "", sep |-> <<>>, pars |-> TRUE, code |-> ""]

Script(l) == IF l < 1 THEN EmptyScript ELSE Scripts[l]

VarInt(n) == IF n < 253 THEN 1 ELSE IF n <= 65535 THEN 3 ELSE 5

(* bytes added to a serialized count when it grows from n to n + d *)
CountGrowth(n, d) == VarInt(n + d) - VarInt(n)

SigPush == 74   \* push op, 72 byte signature, hash type
KeyPush == 34   \* push op, 33 byte public key

TemplateUnlock(kind, req, tot) ==
    CASE kind = "p2pk"  -> SigPush
      [] kind = "p2pkh" -> SigPush + KeyPush
      [] kind = "multi" -> (tot - req) + req * (SigPush + KeyPush + 1)
      [] OTHER          -> -1

(* Estimated size of the unlocking script, -1 if the template is not supported. *)
UnlockSize(l) ==
    LET s == Script(l) IN
    IF s.kind = "agent"
    THEN LET a == TemplateUnlock(s.sub, s.req, s.tot) IN IF a < 0 THEN -1 ELSE s.base + a
    ELSE TemplateUnlock(s.kind, s.req, s.tot)

InputSizeFor(unlock) == 40 + VarInt(unlock) + unlock

(* Estimated size of an input spending l, -1 if the template is not supported. *)
InSize(l) == LET u == UnlockSize(l) IN IF u < 0 THEN -1 ELSE InputSizeFor(u)

OutSizeFor(len) == 8 + VarInt(len) + len
OutSize(l) == OutSizeFor(Script(l).len)

P2PKHIn  == 149
P2PKHOut == 34

---------------------------------------------------------------------------
(* Fees: size * m / 2^k.  The product is computed as p * 4096 + r. *)

Prod(size, m) ==
    LET lo == size * (m % 4096) IN [p |-> size * (m \div 4096) + lo \div 4096, r |-> lo % 4096]

Quot(size, rate) ==
    LET x == Prod(size, rate.m) IN
    IF rate.k >= 12
    THEN LET d == 2 ^ (rate.k - 12) IN [q |-> x.p \div d, exact |-> x.p % d = 0 /\ x.r = 0]
    ELSE LET d == 2 ^ rate.k IN [q |-> x.p * 2 ^ (12 - rate.k) + x.r \div d, exact |-> x.r % d = 0]

FeeUpN(size, ri)   == LET x == Quot(size, Rates[ri]) IN IF x.exact THEN x.q ELSE x.q + 1
FeeDownN(size, ri) == Quot(size, Rates[ri]).q
FeeUp(size, ri)    == Amount(FeeUpN(size, ri))
FeeDown(size, ri)  == Amount(FeeDownN(size, ri))

OutFeeN(l, ri) == FeeUpN(OutSize(l), ri)
(* fee to spend l, 0 if it is not known how *)
InFeeN(l, ri)  == LET n == InSize(l) IN IF n < 0 THEN 0 ELSE FeeUpN(n, ri)

RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)

(* n * rate in single precision arithmetic (round to nearest even), rounded down.  *)
(* Rounding can only matter by reaching the next integer.                          *)
SingleDown(n, ri) ==
    LET rate == Rates[ri]
        x    == Prod(n, rate.m)
        q    == Quot(n, rate).q
        bits == IF x.p > 0 THEN BitLen(x.p) + 12 ELSE BitLen(x.r)
        e    == bits - 24
    IN  IF e < 1 THEN q
        ELSE IF rate.k >= 12
             THEN LET d == 2 ^ (rate.k - 12)
                      g == (q + 1) * d - x.p
                  IN  IF g <= 1024 /\ g * 4096 - x.r <= 2 ^ (e - 1) THEN q + 1 ELSE q
             ELSE LET d == 2 ^ rate.k
                      g == d - (x.r % d)
                  IN  IF g <= 2 ^ (e - 1) /\ e < rate.k THEN q + 1 ELSE q

MaxN(a, b) == IF a > b THEN a ELSE b

(* The builder's dust limit: rounded down, at least one. *)
DustN(outSize, ri) == MaxN(1, SingleDown((outSize + 148) * 3, ri))
DustOf(l, ri) == Amount(DustN(OutSize(l), ri))

(* The fees package's dust limit: rounded up, at least one. *)
DustUpN(outSize, ri) == MaxN(1, FeeUpN((outSize + 148) * 3, ri))

=============================================================================
