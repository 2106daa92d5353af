------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Checks calls recorded from the real code against the specification.     *)
(*                                                                         *)
(* The file named by TRACE has one recorded call per line; a line with f   *)
(* starts a new history.  Every history is a behaviour that advances by one*)
(* line in each step, so all of them are checked in one run.  What can't be*)
(* observed is followed in hid.                                            *)
(***************************************************************************)
EXTENDS Props, Json, IOUtils, TLCExt

Log      == ndJsonDeserialize(IOEnv.TRACE)
Universe == JsonDeserialize(IOEnv.UNIVERSE)
TraceScripts == Universe.scripts
TraceRates   == Universe.rates

CONSTANT Checked    \* properties to check

VARIABLES h,     \* first line of the history
          l,     \* next line
          hid,   \* hidden state
          bad    \* properties violated by the last line

vars == <<h, l, hid, bad>>

Starts == {i \in 1..Len(Log) : Log[i].f}

InHistory(i) == i <= Len(Log) /\ (i = h \/ ~Log[i].f)

---------------------------------------------------------------------------
(* Calls *)

Nothing == [n \in {} |-> 0]

Before(i) == IF i = h THEN Nothing ELSE Log[i - 1].s

NoBuilder == [EmptyBuilder(1, 1) EXCEPT !.chg = 0] @@ [ok |-> <<>>, sf |-> <<>>]

At(f, n, default) == IF n \in DOMAIN f THEN f[n] ELSE default

StateOf(all, n) == At(all, n, NoBuilder)

NoHidden == [mark |-> Nothing, shuf |-> {}, imp |-> {}, seen |-> {}, cache |-> Nothing]

Call(i) ==
    LET e == Log[i] IN
    [op |-> e.op, b |-> e.b, arg |-> e.a, r |-> e.r,
     pre |-> StateOf(Before(i), e.b), post |-> StateOf(e.s, e.b),
     af |-> At(hid.mark, e.b, <<>>), q |-> e.q, m |-> e.m, before |-> Before(i), after |-> e.s,
     cache |-> IF e.op \in {"sighash", "cacheHash"} THEN At(hid.cache, e.a.c, EmptyCache) ELSE EmptyCache,
     seen |-> hid.seen, shuf |-> e.b \in hid.shuf, imp |-> e.b \in hid.imp,
     twin |-> IF e.w /\ i > h
              THEN <<[r |-> Log[i - 1].r, before |-> StateOf(Before(i - 1), Log[i - 1].b),
                      after |-> StateOf(Log[i - 1].s, Log[i - 1].b)]>>
              ELSE <<>>]

---------------------------------------------------------------------------
(* Marks of outputs added for the fee *)

Unknowns(s) == [i \in 1..NOut(s) |-> "u"]

MergeMarks(set) ==
    LET a == CHOOSE x \in set : TRUE IN
    [i \in 1..Len(a) |-> IF \A x \in set : x[i] = a[i] THEN a[i] ELSE "u"]

Matching(outcomes, c) == {o.a : o \in {x \in outcomes : x.e = c.r.e /\ Same(x.s, c.post)}}

FromOutcomes(outcomes, c) ==
    LET set == Matching(outcomes, c) IN
    IF set # {} THEN MergeMarks(set)
    ELSE IF NOut(c.post) = NOut(c.pre) /\ \A i \in 1..NOut(c.pre) : c.pre.outs[i].l = c.post.outs[i].l
    THEN c.af ELSE Unknowns(c.post)

ShuffledMarks(c, from) ==
    [i \in 1..NOut(c.post) |->
       IF i < from THEN c.af[i]
       ELSE LET m == {c.af[j] : j \in {k \in from..NOut(c.pre) : c.pre.outs[k] = c.post.outs[i]}}
            IN  IF \E x \in m : m = {x} THEN CHOOSE x \in m : TRUE ELSE "u"]

(* Signing adjusts the fee several times. *)
SignedMarks(c) ==
    LET j == FirstRem(c.pre)
        same(i, k) == i = j \/ c.pre.outs[i] = c.post.outs[k]
    IN  IF NOut(c.post) = NOut(c.pre) /\ \A i \in 1..NOut(c.pre) : same(i, i) THEN c.af
        ELSE IF NOut(c.post) = NOut(c.pre) + 1 /\ j = 0 /\ \A i \in 1..NOut(c.pre) : same(i, i)
        THEN Append(c.af, "y")
        ELSE IF j # 0 /\ NOut(c.post) = NOut(c.pre) - 1
                /\ \A i \in 1..NOut(c.pre) : i = j \/ same(i, IF i < j THEN i ELSE i - 1)
        THEN RemoveAt(c.af, j)
        ELSE Unknowns(c.post)

BrokenMarks(c) ==
    LET set == {o \in BreakOut(c) : o.e = c.r.e} IN
    IF \E o \in set : o.how = "break" THEN c.af \o [i \in 1..(NOut(c.post) - NOut(c.pre)) |-> "n"]
    ELSE FromOutcomes(BreakOut(c), c)

(* the marks of the builder after the call *)
NextMarks(c) ==
    LET m == CASE c.op = "new"        -> <<>>
               [] c.op = "copy"       -> At(hid.mark, c.arg.src, <<>>)
               [] c.op \in {"import", "reimport"} -> [i \in 1..NOut(c.post) |-> "n"]
               [] c.op = "randomize"  -> ShuffledMarks(c, 1)
               [] c.op = "randomizeAfter" -> ShuffledMarks(c, c.arg.i + 2)
               [] c.op \in Edits \cup Adjusts \cup {"addFunding"} ->
                     FromOutcomes(Outcomes(c.op, c.pre, c.af, c.arg), c)
               [] c.op = "breakFund"  -> BrokenMarks(c)
               [] c.op = "sign"       -> SignedMarks(c)
               [] c.op = "direct"     -> c.af \o [i \in 1..(NOut(c.post) - NOut(c.pre)) |-> "n"]
               [] OTHER -> c.af
    IN  IF Len(m) = NOut(c.post) THEN m ELSE Unknowns(c.post)

Put(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]

NextHidden(c) ==
    [mark  |-> Put(hid.mark, c.b, NextMarks(c)),
     shuf  |-> CASE c.op \in {"randomize", "randomizeAfter"} -> hid.shuf \cup {c.b}
                 [] c.op \in {"new", "import", "reimport"}   -> hid.shuf \ {c.b}
                 [] c.op = "copy" -> IF c.arg.src \in hid.shuf THEN hid.shuf \cup {c.b} ELSE hid.shuf \ {c.b}
                 [] OTHER -> hid.shuf,
     imp   |-> CASE c.op \in {"import", "reimport"} -> hid.imp \cup {c.b}
                 [] OTHER -> hid.imp,
     seen  |-> IF c.op = "sighash" /\ c.r.e = "ok" /\ (c.arg.c = "" \/ Valid(c.cache, c.pre))
                  /\ Known(c.pre, c.arg.i, c.arg.l)
               THEN hid.seen \cup {[k |-> Committed(c.pre, c.arg), h |-> c.r.h]} ELSE hid.seen,
     cache |-> CASE c.op = "sighash" /\ c.arg.c # "" -> Put(hid.cache, c.arg.c, Use(c.cache, c.pre))
                 [] c.op = "cacheHash" /\ c.arg.c # "" -> Put(hid.cache, c.arg.c, UseFor(c.cache, c.pre, c.arg.f))
                 [] c.op = "cacheClear"    -> Put(hid.cache, c.arg.c, EmptyCache)
                 [] c.op = "cacheClearOut" ->
                       Put(hid.cache, c.arg.c, ClearOuts(At(hid.cache, c.arg.c, EmptyCache)))
                 [] OTHER -> hid.cache]

---------------------------------------------------------------------------

Violated(c) ==
    IF ~WellFormed(c.pre) THEN {}                             \* reported before
    ELSE IF ~Crashed(c) /\ ~WellFormed(c.post) THEN Checked   \* can't be a result of any call
    ELSE {p \in Checked : ~Holds(p, c)}

Continues(c) == ~Crashed(c) /\ WellFormed(c.pre) /\ WellFormed(c.post)

Init == /\ h \in Starts
        /\ l = h
        /\ hid = NoHidden
        /\ bad = {}

Next == /\ InHistory(l)
        /\ l' = l + 1
        /\ h' = h
        /\ LET c == Call(l) IN
           /\ bad' = Violated(c)
           /\ hid' = IF Continues(c) THEN NextHidden(c) ELSE NoHidden

Spec == Init /\ [][Next]_vars

(* The properties hold on every recorded call. *)
Conforms == bad = {}

(* Every line was checked. *)
AllChecked == TLCGet("stats").distinct = Len(Log) + Cardinality(Starts)

View == <<h, l, bad>>

Where == [line |-> l - 1, violated |-> bad]

=============================================================================
