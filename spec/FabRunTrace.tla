---------------------------- MODULE FabRunTrace ----------------------------
(***************************************************************************)
(* Are recorded executions of the real controller behaviours of FabRun?    *)
(* TRACES[i] is a sequence of events, recorded from Progs[i]. *)
(***************************************************************************)
EXTENDS FabRun, TLC, TLCExt, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLE l
tvars == <<vars, l>>

Ev == Traces[tid][l]
Errset(e) == Range(e.errs)

Step ==
  /\ l <= Len(Traces[tid])
  /\ l' = l + 1
  /\ LET e == Ev IN
     CASE e.e = "call"    -> Call(e.x)
       [] e.e = "ret"     -> Ret(e.x, e.ok, Errset(e))
       [] e.e = "enter"   -> IF e.a = "?"     \* with arguments that could not be observed
                             THEN \E d \in Demanded : d[1] = e.x /\ Enter(e.x, d[2])
                             ELSE Enter(e.x, e.a)
       [] e.e = "exit"    -> Exit(e.x, IF e.ok THEN "ok" ELSE "fail")
       [] e.e = "dyncall" -> DynCall(e.x)
       [] e.e = "dynret"  -> DynRet(e.x, e.ok, Errset(e))
       [] e.e = "desc"    -> e.a = P.descs[e.x] /\ UNCHANGED vars
       [] OTHER -> FALSE      \* "stuck", "crash"

TraceInit == Init /\ l = 1
TraceSpec == TraceInit /\ [][Step]_tvars

(* Why the next event of a rejected trace is not allowed. *)
TargetsOf(e) == Range(IF e.e = "ret" THEN P.calls[e.x].targets ELSE N(e.x).steps[pc[e.x]])
Why ==
  LET e == Ev IN
  CASE e.e = "enter" ->
         IF st[e.x] # "idle" THEN "double"
         ELSE IF \E d \in Demanded : d[1] = e.x THEN "args" ELSE "undemanded"
    [] e.e \in {"ret", "dynret"} ->
         IF ~AllFin(TargetsOf(e))
         THEN IF \E d \in Demanded : st[d[1]] = "idle" THEN "unstarted" ELSE "early"
         ELSE "result"
    [] e.e = "desc" -> "desc"
    [] e.e \in {"stuck", "crash", "alien"} -> e.e
    [] OTHER -> "harness"

Track == /\ (l > TLCGet(tid) => TLCSet(tid, l))
         /\ (l <= Len(Traces[tid]) /\ ~ENABLED Step
               => PrintT("REJECT " \o ToJson([tid |-> tid, at |-> l, why |-> Why, ev |-> Ev])))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Accepted ==
  \A i \in 1..Len(Traces) :
     TLCGet(i) = Len(Traces[i]) + 1 \/ PrintT("INCOMPLETE " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
