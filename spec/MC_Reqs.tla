------------------------------ MODULE MC_Reqs ------------------------------
(***************************************************************************)
(* The requests of MC_Small, printed to be replayed on the code.           *)
(***************************************************************************)
EXTENDS MC_Small, Json

ReqSpec == MCInit /\ [][FALSE]_vars
Printed == PrintT("HIST " \o ToJson([m |-> m, c |-> c]))
=============================================================================
