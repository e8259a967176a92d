------------------------------ MODULE FabRunMC ------------------------------
(* The properties of FabRun itself, on all behaviours of small programs. *)
EXTENDS FabRun
=============================================================================
