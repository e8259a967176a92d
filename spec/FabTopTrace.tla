----------------------------- MODULE FabTopTrace -----------------------------
(* Does the real TopDir find what FabTop says?  TRACES[i] records edits of and searches in a project. *)
EXTENDS FabTop, TLC, TLCExt, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES pid, l, at
tvars == <<pid, l, at>>
Ev == Traces[pid][l]

Step ==
  /\ l <= Len(Traces[pid])
  /\ l' = l + 1 /\ UNCHANGED pid
  /\ LET e == Ev IN
     CASE e.e = "set" -> at' = [d \in DOMAIN at \cup {e.d} |-> IF d = e.d THEN e.c ELSE at[d]]
       [] e.e = "top" -> (IF e.ok THEN e.got ELSE None) \in Tops(at, e.d) /\ UNCHANGED at
       [] OTHER -> FALSE

TraceInit == pid \in 1..Len(Traces) /\ at = [d \in {} |-> 0] /\ l = 1
TraceSpec == TraceInit /\ [][Step]_tvars

Why == LET e == Ev IN
  CASE e.e = "top" -> IF ~e.ok THEN "refused" ELSE IF Tops(at, e.d) = {None} THEN "accepted" ELSE "wrong"
    [] e.e \in {"stuck", "crash", "panic"} -> e.e
    [] OTHER -> "harness"
Track == /\ (l > TLCGet(pid) => TLCSet(pid, l))
         /\ (l <= Len(Traces[pid]) /\ ~ENABLED Step
               => PrintT("REJECT " \o ToJson([tid |-> pid, at |-> l, why |-> Why, ev |-> Ev])))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Accepted ==
  \A i \in 1..Len(Traces) :
     TLCGet(i) = Len(Traces[i]) + 1 \/ PrintT("INCOMPLETE " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
