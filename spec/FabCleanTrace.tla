--------------------------- MODULE FabCleanTrace ---------------------------
(* Are recorded histories of real Clean targets behaviours of FabClean? *)
EXTENDS FabClean, TLC, TLCExt, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l
tvars == <<cvars, tid, l>>
Ev == Traces[tid][l]
Tree(list) == [p \in {list[i].p : i \in DOMAIN list} |-> list[CHOOSE i \in DOMAIN list : list[i].p = p].c]

Step ==
  /\ l <= Len(Traces[tid])
  /\ l' = l + 1 /\ UNCHANGED tid
  /\ LET e == Ev IN
     CASE e.e = "init"    -> fs' = Tree(e.fs) /\ UNCHANGED <<reg, locked>>
       [] e.e = "put"     -> Put(e.p, e.k)
       [] e.e = "del"     -> Del(e.p)
       [] e.e = "lock"    -> Lock(e.p) \/ Unlock(e.p)
       [] e.e = "declare" -> Declare(Range(e.outs), e.auto)
       [] e.e = "clean"   -> Clean(e.ts, e.dry, e.ok, e.same, Tree(e.fs))
       [] OTHER -> FALSE

TraceInit == tid \in 1..Len(Traces) /\ fs = Empty /\ reg = {} /\ locked = {} /\ l = 1
TraceSpec == TraceInit /\ [][Step]_tvars

Why ==
  LET e == Ev IN
  CASE e.e = "clean" ->
         LET F == Tree(e.fs) IN
         IF ~e.same THEN "altered"
         ELSE IF e.dry /\ F # fs THEN "drychange"
         ELSE IF ~(DOMAIN F \subseteq DOMAIN fs /\ DOMAIN fs \ DOMAIN F \subseteq Listed(e.ts)) THEN "toomuch"
         ELSE IF \E p \in DOMAIN F : F[p] # fs[p] THEN "toomuch"
         ELSE IF e.ok THEN "left" ELSE "falsefail"
    [] e.e \in {"stuck", "panic"} -> e.e
    [] OTHER -> "harness"

Track == /\ (l > TLCGet(tid) => TLCSet(tid, l))
         /\ (l <= Len(Traces[tid]) /\ ~ENABLED Step
               => PrintT("REJECT " \o ToJson([tid |-> tid, at |-> l, why |-> Why, ev |-> [e |-> Ev.e]])))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Accepted ==
  \A i \in 1..Len(Traces) :
     TLCGet(i) = Len(Traces[i]) + 1 \/ PrintT("INCOMPLETE " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
