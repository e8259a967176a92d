----------------------------- MODULE FabIndent -----------------------------
(***************************************************************************)
(* Indented output (property C17): the nesting depth of a controller, the  *)
(* copiers made by IndentingCopier, and what comes out of them.            *)
(***************************************************************************)
EXTENDS FabText, FiniteSets

VARIABLES running,   \* the calls of Controller.Run in progress
          copiers,   \* copier -> [ind, sink, s]
          sinks      \* sink -> the text in it
ivars == <<running, copiers, sinks>>

Nothing == [x \in {} |-> 0]
IndentInit == running = {} /\ copiers = Nothing /\ sinks = [k \in 1..3 |-> ""]
Depth == Cardinality(running)

BeginRun(r) == r \notin running /\ running' = running \cup {r} /\ UNCHANGED <<copiers, sinks>>
EndRun(r)   == r \in running /\ running' = running \ {r} /\ UNCHANGED <<copiers, sinks>>
NewCopier(k, prefix, sink) ==
  /\ k \notin DOMAIN copiers
  /\ copiers' = [j \in DOMAIN copiers \cup {k} |-> IF j = k THEN [ind |-> Indent(Depth, prefix), sink |-> sink, s |-> Fresh] ELSE copiers[j]]
  /\ UNCHANGED <<running, sinks>>
(* A write.  Its text has arrived when it ends. *)
Write(k, items) ==
  /\ k \in DOMAIN copiers
  /\ LET c == copiers[k]
         t == Feed([c.s EXCEPT !.out = ""], items, c.ind) IN
     /\ copiers' = [copiers EXCEPT ![k].s = [t EXCEPT !.out = ""]]
     /\ sinks' = [sinks EXCEPT ![c.sink] = @ \o t.out]
  /\ UNCHANGED running
(* Controller.Indentf writes to standard output, sink 1. *)
EndsLine(items) == items # <<>> /\ Last(items) = "\n"
Indentf(items) ==
  /\ sinks' = [sinks EXCEPT ![1] = @ \o Indent(Depth, "") \o Plain(items) \o (IF EndsLine(items) THEN "" ELSE "\n")]
  /\ UNCHANGED <<running, copiers>>
=============================================================================
