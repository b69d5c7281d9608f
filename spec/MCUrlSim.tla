------------------------------ MODULE MCUrlSim ------------------------------
(* Random behaviours of UrlSpec with the calls on record, for the executor. *)
EXTENDS MCUrl
VARIABLE call
SimInit == Init /\ call = <<"start", Unparse(u), 0, 0>>
SimNext == \E c \in CallsAt(u) : LET v == Do(u, c).u IN Small(v) /\ u' = v /\ call' = c
SimSpec == SimInit /\ [][SimNext]_<<u, call>>
=============================================================================
