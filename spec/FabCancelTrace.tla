--------------------------- MODULE FabCancelTrace ---------------------------
(* Are recorded executions of real builds, some of them canceled, behaviours of FabCancel? *)
EXTENDS FabCancel, TLC, TLCExt, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLE l
tvars == <<vars, l>>
Ev == Traces[tid][l]

(* Everything that was due has happened. *)
Settled(run) ==
  /\ ctx = "live" /\ Due = {} /\ Running = run
  /\ \A x \in Nodes : st[x] \notin {"okrel", "failrel"} /\ ~Ready(x)

Hidden == UNCHANGED l /\ \E x \in Nodes : Exit(x) \/ Record(x)
Visible ==
  /\ l' = l + 1
  /\ LET e == Ev IN
     CASE e.e = "build"   -> b + 1 = e.x /\ Build
       [] e.e = "start"   -> Start(e.x)
       [] e.e = "release" -> Release(e.x, e.ok)
       [] e.e = "settled" -> Settled(Range(e.run)) /\ UNCHANGED vars
       [] e.e = "cancel"  -> Cancel
       [] e.e = "return"  -> Return(e.ok)
       [] e.e = "alive"   -> e.run = <<>> /\ UNCHANGED vars    \* the processes left over when a build has returned
       [] OTHER -> FALSE
Step == l <= Len(Traces[tid]) /\ (Visible \/ Hidden)

TraceInit == Init /\ l = 1
TraceSpec == TraceInit /\ [][Step]_tvars

Why ==
  LET e == Ev IN
  CASE e.e = "start" ->
         IF st[e.x] # "" THEN "double" ELSE IF e.x \notin Demanded THEN "undemanded"
         ELSE IF ctx = "dead" THEN "afterward" ELSE "start"
    [] e.e = "settled" -> "stalled"
    [] e.e = "return"  -> IF ~AllFin(Wanted) THEN "early" ELSE "result"
    [] e.e \in {"alive", "stuck", "crash"} -> e.e
    [] OTHER -> "harness"

Track == /\ (l > TLCGet(tid) => TLCSet(tid, l))
         /\ (l <= Len(Traces[tid]) /\ ~ENABLED Step
               => PrintT("REJECT " \o ToJson([tid |-> tid, at |-> l, why |-> Why, ev |-> Ev])))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Accepted ==
  \A i \in 1..Len(Traces) :
     TLCGet(i) = Len(Traces[i]) + 1 \/ PrintT("INCOMPLETE " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
