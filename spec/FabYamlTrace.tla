---------------------------- MODULE FabYamlTrace ----------------------------
(***************************************************************************)
(* Do the real YAML readers do what FabYaml says?  TRACES[i] is what they  *)
(* did with PROGS[i].  For the accepted ones the program is printed, for   *)
(* FabRunTrace to check the rest of the execution.                         *)
(***************************************************************************)
EXTENDS FabYaml, TLC, TLCExt, Json, IOUtils

Projects == JsonDeserialize(IOEnv.PROGS)
Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLE l
tvars == <<yvars, l>>

P == Projects[pid]
Ev == Traces[pid][l]

RECURSIVE Globs(_)
Globs(n) == n.tag = "Glob" \/ \E i \in 1..Len(n.kids) : Globs(n.kids[i])
Step ==
  /\ l <= Len(Traces[pid])
  /\ l' = l + 1
  /\ LET e == Ev IN
     CASE e.e = "read" -> ReadFile(P, e.dir, e.ok)
       [] e.e = "reg" ->
            /\ IF failed THEN TRUE ELSE ToSet(e.names) = Registry(P) /\ Len(e.names) = Cardinality(Registry(P))
            /\ UNCHANGED yvars
       [] e.e = "list" ->     \* a list of strings, or of files
            /\ LET want == StrList(P.fs, e.dir, e.node) IN
               IF ~want.ok THEN ~e.ok
               ELSE e.ok /\ (Globs(e.node) \/ e.strs = want.l) /\ e.files = Paths(e.dir, want.l)   \* (how the files found are spelled is up to fab)
            /\ UNCHANGED yvars
       [] e.e = "clean" ->    \* what a Clean target given this list removed, if it was about no directories
            /\ LET want == StrList(P.fs, e.dir, e.node)
                   there == ToSet(Paths(e.dir, want.l)) \cap ToSet(P.fs)
                   IsDir(p) == \E q \in ToSet(P.fs) : Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p
               IN IF ~want.ok THEN ~e.ok /\ e.removed = <<>>
                  ELSE IF \E p \in there : IsDir(p) THEN TRUE
                  ELSE e.ok /\ ToSet(e.removed) = there
            /\ UNCHANGED yvars
       [] e.e = "select" -> Select(P, e.words, e.ok, ToSet(e.mentioned))
       [] OTHER -> FALSE      \* "stuck", "crash"

TraceInit == pid \in 1..Len(Traces) /\ loaded = {} /\ failed = FALSE /\ l = 1
TraceSpec == TraceInit /\ [][Step]_tvars

Why == CASE Ev.e = "read" -> IF Ev.ok THEN "accepted" ELSE "refused"
         [] Ev.e = "reg" -> IF {x.name : x \in ToSet(Ev.names)} # {x.name : x \in Registry(P)} THEN "names" ELSE "docs"
         [] Ev.e = "list" -> "list"
         [] Ev.e = "clean" -> "clean"
         [] Ev.e = "select" -> IF Ev.ok = (UnknownNames(P, Ev.words) = {}) THEN "unreported" ELSE "selected"
         [] Ev.e \in {"stuck", "crash"} -> Ev.e
         [] OTHER -> "harness"
Track == /\ (l > TLCGet(pid) => TLCSet(pid, l))
         /\ (l <= Len(Traces[pid]) /\ ~ENABLED Step
               => PrintT("REJECT " \o ToJson([tid |-> pid, at |-> l, why |-> Why, ev |-> Ev])))
         /\ (l = Len(Traces[pid]) + 1 /\ Len(P.calls) > 0 => PrintT("PROG " \o ToJson([tid |-> pid, prog |-> IF Runnable(P) THEN Program(P) ELSE [nodes |-> <<>>, calls |-> <<>>]])))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Accepted ==
  \A i \in 1..Len(Traces) :
     TLCGet(i) = Len(Traces[i]) + 1 \/ PrintT("INCOMPLETE " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
