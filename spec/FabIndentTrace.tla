-------------------------- MODULE FabIndentTrace --------------------------
(* Are recorded executions of real controllers and copiers behaviours of FabIndent? *)
EXTENDS FabIndent, TLC, TLCExt, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l
tvars == <<ivars, tid, l>>
Ev == Traces[tid][l]

Step ==
  /\ l <= Len(Traces[tid])
  /\ l' = l + 1 /\ UNCHANGED tid
  /\ LET e == Ev IN
     CASE e.e = "begin"   -> BeginRun(e.r)
       [] e.e = "end"     -> EndRun(e.r) /\ e.ok = (e.how # "fail")
       [] e.e = "new"     -> NewCopier(e.k, e.prefix, e.sink)
       [] e.e = "write"   -> e.ok /\ Write(e.k, e.items) /\ sinks'[copiers[e.k].sink] = e.text
       [] e.e = "indentf" -> Indentf(e.items) /\ sinks'[1] = e.text
       [] OTHER -> FALSE

TraceInit == tid \in 1..Len(Traces) /\ IndentInit /\ l = 1
TraceSpec == TraceInit /\ [][Step]_tvars

Why ==
  LET e == Ev IN
  CASE e.e = "write" -> IF e.ok THEN "text" ELSE "error"
    [] e.e = "indentf" -> "indentf"
    [] e.e = "end" -> "result"
    [] e.e \in {"stuck", "panic"} -> e.e
    [] OTHER -> "harness"

Track == /\ (l > TLCGet(tid) => TLCSet(tid, l))
         /\ (l <= Len(Traces[tid]) /\ ~ENABLED Step
               => PrintT("REJECT " \o ToJson([tid |-> tid, at |-> l, why |-> Why, ev |-> [e |-> Ev.e]])))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Accepted ==
  \A i \in 1..Len(Traces) :
     TLCGet(i) = Len(Traces[i]) + 1 \/ PrintT("INCOMPLETE " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
