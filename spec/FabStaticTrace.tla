-------------------------- MODULE FabStaticTrace --------------------------
(* Are the targets that a driver offers those of FabStatic?  TRACES[i] is what was recorded with package PROGS[i]. *)
EXTENDS FabStatic, TLC, TLCExt, Json, IOUtils

Progs  == JsonDeserialize(IOEnv.PROGS)
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES pid, l
tvars == <<pkg, pid, l>>
Ev == Traces[pid][l]
Listed(e) == ToSet(e.listed)

Step ==
  /\ l <= Len(Traces[pid])
  /\ l' = l + 1 /\ UNCHANGED <<pid, pkg>>
  /\ LET e == Ev IN
     CASE e.e = "list" -> List(e.ok, Listed(e))
       [] e.e = "run" -> Run(e.words, e.ok, e.ran)
       [] OTHER -> FALSE

TraceInit == pid \in 1..Len(Traces) /\ pkg = Progs[pid] /\ l = 1
TraceSpec == TraceInit /\ [][Step]_tvars

NamesOf(S) == {x.name : x \in S}
Why == LET e == Ev IN
  CASE e.e = "list" ->
         IF ~e.ok THEN "failed"
         ELSE IF NamesOf(Offered(pkg)) \ NamesOf(Listed(e)) # {} THEN "missing"
         ELSE IF NamesOf(Listed(e)) \ NamesOf(Offered(pkg)) # {} THEN "extra"
         ELSE "documentation"
    [] e.e = "run" -> "selected"
    [] e.e \in {"stuck", "crash", "panic"} -> e.e
    [] OTHER -> "harness"
Track == /\ (l > TLCGet(pid) => TLCSet(pid, l))
         /\ (l <= Len(Traces[pid]) /\ ~ENABLED Step
               => PrintT("REJECT " \o ToJson([tid |-> pid, at |-> l, why |-> Why, ev |-> Ev])))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Accepted ==
  \A i \in 1..Len(Traces) :
     TLCGet(i) = Len(Traces[i]) + 1 \/ PrintT("INCOMPLETE " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
