--------------------------- MODULE ModelUniverse ---------------------------
(***************************************************************************)
(* Scripts and rates for exploring the model.                              *)
(***************************************************************************)

ModelScripts == <<
    [kind |-> "p2pkh", len |-> 25, req |-> 1, tot |-> 1, keys |-> <<1>>, un |-> FALSE, adr |-> TRUE, base |-> 0,
     sub |-> "", sep |-> <<>>, pars |-> TRUE, code |-> "1"],
    [kind |-> "p2pkh", len |-> 25, req |-> 1, tot |-> 1, keys |-> <<2>>, un |-> FALSE, adr |-> TRUE, base |-> 0,
     sub |-> "", sep |-> <<>>, pars |-> TRUE, code |-> "2"],
    [kind |-> "p2pk", len |-> 35, req |-> 1, tot |-> 1, keys |-> <<3>>, un |-> FALSE, adr |-> TRUE, base |-> 0,
     sub |-> "", sep |-> <<>>, pars |-> TRUE, code |-> "3"],
    [kind |-> "multi", len |-> 100, req |-> 2, tot |-> 3, keys |-> <<1, 2, 3>>, un |-> FALSE, adr |-> TRUE, base |-> 0,
     sub |-> "", sep |-> <<>>, pars |-> TRUE, code |-> "4"],
    [kind |-> "data", len |-> 12, req |-> 0, tot |-> 0, keys |-> <<>>, un |-> TRUE, adr |-> FALSE, base |-> 0,
     sub |-> "", sep |-> <<>>, pars |-> TRUE, code |-> "5"],
    [kind |-> "other", len |-> 23, req |-> 0, tot |-> 0, keys |-> <<>>, un |-> FALSE, adr |-> TRUE, base |-> 0,
     sub |-> "", sep |-> <<>>, pars |-> TRUE, code |-> "6"]>>

(* 0, 1/20 (as a float32), 1/2, 1, 5 satoshis per byte *)
ModelRates == <<[m |-> 0, k |-> 0], [m |-> 13421773, k |-> 28], [m |-> 1, k |-> 1], [m |-> 1, k |-> 0], [m |-> 5, k |-> 0]>>

=============================================================================
