--------------------------- MODULE FabFilesTrace ---------------------------
(* Are recorded histories of real builds behaviours of FabFiles? *)
EXTENDS FabFiles, TLC, TLCExt, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLE l
tvars == <<cvars, l>>

Ev == Traces[tid][l]
FsOf(e) == {<<r.p, r.c>> : r \in Range(e.fs)}
ModeOf(e) == [on |-> TRUE, force |-> e.force, dry |-> e.dry, db |-> e.db, roots |-> Range(e.roots)]

Step ==
  /\ l <= Len(Traces[tid])
  /\ l' = l + 1
  /\ LET e == Ev IN
     CASE e.e = "fs"    -> SetFs(FsOf(e))
       [] e.e = "run"   -> StartRun(e.def, ModeOf(e))
       [] e.e = "enter" -> Enter(e.x)
       [] e.e = "exit"  -> Exit(e.x, e.ok, FsOf(e))
       [] e.e = "end"   -> End(e.ok) /\ (run.dry => e.adds = 0 /\ FsOf(e) = fs) /\ FsOf(e) = fs
       [] e.e = "crash" -> Crash(FsOf(e))
       [] OTHER -> FALSE    \* "stuck", "panic"

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ def = <<>> /\ fs = {} /\ run = NoRun /\ st = <<>> /\ rec = {} /\ seen = {}
  /\ l = 1
TraceSpec == TraceInit /\ [][Step]_tvars

Why ==
  LET e == Ev IN
  CASE e.e = "enter" ->
         IF st[e.x] # "idle" THEN "double"
         ELSE IF "ok" \notin PreOuts(e.x) THEN (IF "fail" \in PreOuts(e.x) THEN "prereqfail" ELSE "order")
         ELSE IF e.x \in Demanded /\ Consults /\ run.db = "haserr" THEN "dberr"
         ELSE "needless"
    [] e.e = "end" ->
         IF run.dry /\ e.adds > 0 THEN "dryadd"
         ELSE IF FsOf(e) # fs THEN (IF run.dry THEN "drychange" ELSE "change")
         ELSE IF \E r \in run.roots : Outs(r) = {"pend"} THEN "skipped"
         ELSE IF e.ok THEN "falseok" ELSE "falsefail"
    [] e.e = "exit" -> IF run.dry THEN "drychange" ELSE "harness"
    [] e.e \in {"stuck", "panic"} -> e.e
    [] OTHER -> "harness"

Track == /\ (l > TLCGet(tid) => TLCSet(tid, l))
         /\ (l <= Len(Traces[tid]) /\ ~ENABLED Step
               => PrintT("REJECT " \o ToJson([tid |-> tid, at |-> l, why |-> Why, ev |-> [e |-> Ev.e, x |-> Ev.x]])))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Accepted ==
  \A i \in 1..Len(Traces) :
     TLCGet(i) = Len(Traces[i]) + 1 \/ PrintT("INCOMPLETE " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
