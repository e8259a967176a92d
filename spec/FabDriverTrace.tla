--------------------------- MODULE FabDriverTrace ---------------------------
(* Does fab compile and run drivers as FabDriver says?  TRACES[i] is what was recorded. *)
EXTENDS FabDriver, SequencesExt, TLC, TLCExt, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES pid, l
tvars == <<drvars, pid, l>>
Ev == Traces[pid][l]
RanOf(e) == [i \in 1..Len(e.ran) |-> [c |-> {<<e.ran[i].c[k][1], e.ran[i].c[k][2]>> : k \in 1..Len(e.ran[i].c)}, v |-> e.ran[i].v]]

Step ==
  /\ l <= Len(Traces[pid])
  /\ l' = l + 1 /\ UNCHANGED pid
  /\ LET e == Ev IN
     CASE e.e = "put" -> Put(e.p, e.n, e.c)
       [] e.e = "del" -> Del(e.p, e.n)
       [] e.e = "harm" -> Harm
       [] e.e = "run" -> Run(e.p, e.v, e.tags, e.force, e.fails, e.killed, e.attempted, e.compiled, RanOf(e), e.ok)
       [] OTHER -> FALSE

TraceInit == pid \in 1..Len(Traces) /\ src = [p \in {1, 2} |-> [n \in {} |-> 0]] /\ last = None /\ l = 1
TraceSpec == TraceInit /\ [][Step]_tvars

Why == LET e == Ev IN
  CASE e.e = "run" ->
         LET now == [c |-> Content(e.p, e.tags), v |-> e.v] IN
         IF \E i \in 1..Len(e.ran) : RanOf(e)[i] # now THEN "outdated"
         ELSE IF e.attempted /\ ~e.force /\ ~IsNone(last) /\ last.sure /\ last.c = now.c /\ last.v = now.v THEN "recompiled"
         ELSE IF e.force /\ ~e.attempted THEN "unforced"
         ELSE IF e.fails /\ e.attempted /\ (e.ok \/ e.ran # <<>>) THEN "swallowed"
         ELSE "result"
    [] e.e \in {"stuck", "crash", "panic"} -> e.e
    [] OTHER -> "harness"
Track == /\ (l > TLCGet(pid) => TLCSet(pid, l))
         /\ (l <= Len(Traces[pid]) /\ ~ENABLED Step
               => PrintT("REJECT " \o ToJson([tid |-> pid, at |-> l, why |-> Why, ev |-> Ev])))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Accepted ==
  \A i \in 1..Len(Traces) :
     TLCGet(i) = Len(Traces[i]) + 1 \/ PrintT("INCOMPLETE " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
