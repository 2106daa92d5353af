----------------------------- MODULE Behaviours -----------------------------
(***************************************************************************)
(* Derives histories from the model: every behaviour is printed as the     *)
(* calls to make, which the driver then makes with the real code; what it  *)
(* records is checked with Trace.tla.                                      *)
(***************************************************************************)
EXTENDS Moves, Json, IOUtils

Universe == JsonDeserialize(IOEnv.UNIVERSE)
TraceScripts == Universe.scripts
TraceRates   == Universe.rates

CONSTANTS Depth,
          First, Then,   \* kinds of moves made first and later
          Before,        \* number of moves of the first kinds
          FeeRates, DustRates,
          MaxIns, MaxOuts

VARIABLES s, a, hist

vars == <<s, a, hist>>

Made(op, arg) == [op |-> op, b |-> "b1", a |-> arg]

Init == \E fr \in FeeRates, dr \in DustRates :
           /\ s = EmptyBuilder(fr, dr) /\ a = <<>>
           /\ hist = <<Made("new", [fr |-> fr, dr |-> dr])>>

Step(k) ==
    /\ Len(hist) <= Depth
    /\ k \in (IF Len(hist) <= Before THEN First ELSE Then)
    /\ \E m \in MovesOf(k, s) : \E o \in Results(s, a, m) :
          /\ s' = o.s /\ a' = o.a
          /\ hist' = Append(hist, Made(m.op, m.arg))
    /\ Len(s'.ins) <= MaxIns /\ Len(s'.outs) <= MaxOuts

Next == Step("input") \/ Step("output") \/ Step("value") \/ Step("change") \/ Step("fee") \/ Step("fund")
        \/ Step("break")

Spec == Init /\ [][Next]_vars

Emit == Len(hist) = Depth + 1 => PrintT("HISTORY " \o ToJson(hist))

=============================================================================
