----------------------------- MODULE FabDBTrace -----------------------------
(* Are recorded histories of real hash databases behaviours of FabDB? *)
EXTENDS FabDB, TLC, TLCExt, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

HashSet == 1..200

VARIABLES tid, l
tvars == <<dbvars, tid, l>>
Ev == Traces[tid][l]

Step ==
  /\ l <= Len(Traces[tid])
  /\ l' = l + 1 /\ UNCHANGED tid
  /\ LET e == Ev IN
     CASE e.e = "open"    -> Open(e.x, e.keep, e.upd)
       [] e.e = "close"   -> Close(e.x)
       [] e.e = "advance" -> Advance(e.d)
       [] e.e = "begin"   -> Begin(e.x, e.op, e.hd, e.h)
       [] e.e = "end"     -> ~e.err /\ End(e.x, e.res)
       [] OTHER -> FALSE

TraceInit == tid \in 1..Len(Traces) /\ DBInit /\ l = 1
TraceSpec == TraceInit /\ [][Step]_tvars

Why ==
  LET e == Ev IN
  CASE e.e = "end" -> IF e.err THEN "error" ELSE IF e.res THEN "phantom" ELSE "lost"
    [] e.e \in {"stuck", "panic"} -> e.e
    [] OTHER -> "harness"

Track == /\ (l > TLCGet(tid) => TLCSet(tid, l))
         /\ (l <= Len(Traces[tid]) /\ ~ENABLED Step
               => PrintT("REJECT " \o ToJson([tid |-> tid, at |-> l, why |-> Why, ev |-> [e |-> Ev.e, x |-> Ev.x]])))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Accepted ==
  \A i \in 1..Len(Traces) :
     TLCGet(i) = Len(Traces[i]) + 1 \/ PrintT("INCOMPLETE " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
