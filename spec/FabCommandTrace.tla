-------------------------- MODULE FabCommandTrace --------------------------
(* Are recorded executions of real Command targets behaviours of FabCommand? *)
EXTENDS FabCommand, TLCExt, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l
tvars == <<mvars, tid, l>>
Ev == Traces[tid][l]

Step ==
  /\ l <= Len(Traces[tid])
  /\ l' = l + 1 /\ UNCHANGED tid
  /\ LET e == Ev IN
     CASE e.e = "config" -> Configure(e.c, e.sinks)
       [] e.e = "proc"   -> Proc(e)
       [] e.e = "chunk"  -> Chunk(e.s, e.items)
       [] e.e = "exit"   -> Exit(e.code)
       [] e.e = "end"    -> End(e.ok, e.cap, e.sinks, e.fns)
       [] OTHER -> FALSE

TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1
             /\ c = [x \in {} |-> 0] /\ sinks = [p \in Sinks |-> Absent] /\ k = 0 /\ phase = "none" /\ acc = FreshAcc /\ code = 0
TraceSpec == TraceInit /\ [][Step]_tvars

Why ==
  LET e == Ev IN
  CASE e.e = "proc" -> IF c.dry THEN "dryrun" ELSE IF ~CanStart THEN "started" ELSE IF e.args # ArgsSeen(k + 1) THEN "args"
                       ELSE IF e.dir # DirSeen THEN "dir" ELSE IF e.env # EnvSeen THEN "env" ELSE "stdin"
    [] e.e = "end" -> IF ~Done THEN "notrun"
                      ELSE IF e.ok # OkSeen THEN "result"
                      ELSE IF ~SinksOk(e.sinks) THEN (IF c.dry THEN "dryoutput" ELSE "output")
                      ELSE IF ~FnsOk(e.fns) THEN "closer" ELSE "captured"
    [] e.e \in {"stuck", "panic"} -> e.e
    [] OTHER -> "harness"

Track == /\ (l > TLCGet(tid) => TLCSet(tid, l))
         /\ (l <= Len(Traces[tid]) /\ ~ENABLED Step
               => PrintT("REJECT " \o ToJson([tid |-> tid, at |-> l, why |-> Why, ev |-> [e |-> Ev.e]])))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Accepted ==
  \A i \in 1..Len(Traces) :
     TLCGet(i) = Len(Traces[i]) + 1 \/ PrintT("INCOMPLETE " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
