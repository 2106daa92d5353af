----------------------------- MODULE MCBuilder -----------------------------
(***************************************************************************)
(* Checks that the model of the builder has the properties, for every      *)
(* history of up to Depth moves.                                           *)
(***************************************************************************)
EXTENDS Moves, ModelUniverse

CONSTANTS Depth,      \* number of moves
          Kinds,      \* sequence of sets of kinds of moves, the last one is used for all later moves
          MaxIns, MaxOuts,
          FeeRates, DustRates, \* indexes of rates
          Checked

VARIABLES s, a, n, bad

vars == <<s, a, n, bad>>

Init == /\ \E fr \in FeeRates, dr \in DustRates : s = EmptyBuilder(fr, dr)
        /\ a = <<>> /\ n = 0 /\ bad = {}

KindsAt(k) == Kinds[IF k <= Len(Kinds) THEN k ELSE Len(Kinds)]

Next == /\ n < Depth
        /\ n' = n + 1
        /\ \E k \in KindsAt(n + 1) : \E m \in MovesOf(k, s) : \E o \in Results(s, a, m) :
              /\ s' = o.s /\ a' = o.a
              /\ bad' = {p \in Checked : ~Holds(p, CallOf(s, a, m, o))}
        /\ Len(s'.ins) <= MaxIns /\ Len(s'.outs) <= MaxOuts

Spec == Init /\ [][Next]_vars

Correct == bad = {}

(* Marks are kept for every output. *)
MarksMatch == Len(a) = NOut(s) /\ s.si = NIn(s) /\ s.so = NOut(s)

=============================================================================
