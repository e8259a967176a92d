------------------------------ MODULE FabProgs ------------------------------
(* Programs (graphs of targets, with Run calls), see FabRun. *)
EXTENDS Naturals, Sequences, FiniteSets
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils

(* A sequence of programs, in a JSON file.  (TLC evaluates this once because *)
(* it is a definition; a constant replaced in the configuration is evaluated *)
(* at every use.)                                                            *)
Progs == JsonDeserialize(IOEnv.PROGS)

Range(s) == {s[i] : i \in 1..Len(s)}
=============================================================================
