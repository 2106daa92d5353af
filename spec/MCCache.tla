------------------------------ MODULE MCCache ------------------------------
(***************************************************************************)
(* The signature hash cache.  The concrete cache keeps the three hashes it *)
(* was first asked for; the model checks that whenever the rule in SigHash *)
(* says that a cache may be used (Valid), the preimage fields taken from   *)
(* the concrete cache are those of the transaction.                        *)
(***************************************************************************)
EXTENDS SigHash, ModelUniverse

CONSTANTS Types, MaxSteps

VARIABLES s,        \* the transaction
          known,    \* abstract state of the cache
          cache,    \* concrete cache: hashes are represented by what they are hashes of
          ok, n

vars == <<s, known, cache, ok, n>>

Nothing == <<"none">>

In(o, q) == [o |-> o, q |-> q, l |-> 1, v |-> Zero, k |-> "", u |-> NoUnlock]
Ins  == {<<In("1:0", "ffffffff")>>, <<In("1:0", "00000001")>>, <<In("2:0", "ffffffff")>>,
         <<In("1:0", "ffffffff"), In("2:0", "ffffffff")>>}
Outs == {<<>>, <<NewOutput(1, Amount(1), FALSE, FALSE, "")>>, <<NewOutput(1, Amount(2), FALSE, FALSE, "")>>}

HashPrev(t) == <<"P", [i \in 1..NIn(t) |-> t.ins[i].o]>>
HashSeq(t)  == <<"S", [i \in 1..NIn(t) |-> t.ins[i].q]>>
HashOuts(t) == <<"O", [i \in 1..NOut(t) |-> OutContent(t.outs[i])]>>

Init == /\ s \in {SetOuts(SetIns(EmptyBuilder(1, 1), i), o) : i \in Ins, o \in Outs}
        /\ known = EmptyCache /\ cache = [p |-> Nothing, s |-> Nothing, o |-> Nothing]
        /\ ok = TRUE /\ n = 0

Fill(x, h) == IF x = Nothing THEN h ELSE x

Hash(t) ==
    LET usesP == PrevLabel(t) = "P"
        usesS == SeqLabel(t) = "S"
        usesO == OutLabel(s, 0, t) = "O"
        new   == [p |-> IF usesP THEN Fill(cache.p, HashPrev(s)) ELSE cache.p,
                  s |-> IF usesS THEN Fill(cache.s, HashSeq(s)) ELSE cache.s,
                  o |-> IF usesO THEN Fill(cache.o, HashOuts(s)) ELSE cache.o]
    IN  /\ cache' = new
        /\ ok' = (Valid(known, s) =>
                    (usesP => new.p = HashPrev(s)) /\ (usesS => new.s = HashSeq(s)) /\ (usesO => new.o = HashOuts(s)))
        /\ known' = Use(known, s)
        /\ UNCHANGED s

One(f) ==
    LET new == CASE f = "P" -> [cache EXCEPT !.p = Fill(@, HashPrev(s))]
                 [] f = "S" -> [cache EXCEPT !.s = Fill(@, HashSeq(s))]
                 [] f = "O" -> [cache EXCEPT !.o = Fill(@, HashOuts(s))]
    IN  /\ cache' = new
        /\ ok' = (ValidFor(known, s, f) =>
                    CASE f = "P" -> new.p = HashPrev(s) [] f = "S" -> new.s = HashSeq(s) [] f = "O" -> new.o = HashOuts(s))
        /\ known' = UseFor(known, s, f)
        /\ UNCHANGED s

Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \/ \E t \in Types : Hash(t)
           \/ \E f \in {"P", "S", "O"} : One(f)
           \/ \E i \in Ins  : s' = SetIns(s, i) /\ ok' = TRUE /\ UNCHANGED <<known, cache>>
           \/ \E o \in Outs : s' = SetOuts(s, o) /\ ok' = TRUE /\ UNCHANGED <<known, cache>>
           \/ known' = Clear(known) /\ cache' = [p |-> Nothing, s |-> Nothing, o |-> Nothing] /\ ok' = TRUE /\ UNCHANGED s
           \/ known' = ClearOuts(known) /\ cache' = [cache EXCEPT !.o = Nothing] /\ ok' = TRUE /\ UNCHANGED s

Spec == Init /\ [][Next]_vars

Correct == ok

=============================================================================
