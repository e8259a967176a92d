--------------------------- MODULE FabMainTrace ---------------------------
(* Do invocations of fab do what FabMain says?  TRACES[i] is what was recorded in project PROGS[i]. *)
EXTENDS FabMain, TLC, TLCExt, Json, IOUtils

Progs  == JsonDeserialize(IOEnv.PROGS)
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES pid, l
tvars == <<mvars, pid, l>>
Ev == Traces[pid][l]
Map(x) == [f \in {x[i][1] : i \in 1..Len(x)} |-> (CHOOSE i \in 1..Len(x) : x[i][1] = f)]
FilesOf(x) == LET m == Map(x) IN [f \in DOMAIN m |-> x[m[f]][2]]

Step ==
  /\ l <= Len(Traces[pid])
  /\ l' = l + 1 /\ UNCHANGED pid
  /\ LET e == Ev IN
     CASE e.e = "fab" -> Invoke(e.fl, e.dir, e.words, e.input, e.ok, e.ran, ToSet(e.out), ToSet(e.err), ToSet(e.verb), ToSet(e.listed), FilesOf(e.files), ToSet(e.found), ToSet(e.extra))
       [] e.e = "edit" -> Edit(e.f, e.text)
       [] e.e = "toggle" -> Toggle(e.go, e.yaml, e.bad)
       [] OTHER -> FALSE

TraceInit ==
  /\ pid \in 1..Len(Traces) /\ l = 1
  /\ proj = Progs[pid] /\ fs = FilesOf(Progs[pid].files) /\ hasgo = Progs[pid].hasgo /\ hasyaml = Progs[pid].hasyaml /\ broken = FALSE
  /\ dbs = [d \in ToSet(Progs[pid].dirs) |-> {}] /\ used = {}
TraceSpec == TraceInit /\ [][Step]_tvars

Why == LET e == Ev IN
  CASE e.e = "fab" ->
         LET x == Expected(e.fl, e.dir, e.words)
             notes == {Note(t, e.fl, e.words, e.input) : t \in x.ran}
             ids == {t.id : t \in x.ran}
             seen == {e.ran[i][1] : i \in 1..Len(e.ran)}
         IN IF e.fl.n /\ (~(seen \subseteq ids) \/ \E f \in DOMAIN fs : FilesOf(e.files)[f] # fs[f]) THEN "drychange"
            ELSE IF e.ok # x.ok THEN (IF e.ok THEN "falsesuccess" ELSE "falsefailure")
            ELSE IF ~(ids \subseteq seen) THEN "notrun"
            ELSE IF ~(seen \subseteq ids) THEN "undemanded"
            ELSE IF Len(e.ran) # Cardinality(x.ran) THEN "double"
            ELSE IF ToSet(e.ran) # notes THEN "modes"
            ELSE IF ToSet(e.out) # Of(x.ran, "out") \/ ToSet(e.err) # Of(x.ran, "out") \/ ToSet(e.verb) # (IF e.fl.v THEN Of(x.ran, "verb") ELSE {}) THEN "output"
            ELSE IF e.fl.l /\ x.ok /\ ToSet(e.listed) # Registry THEN "listed"
            ELSE IF \E f \in DOMAIN fs : FilesOf(e.files)[f] # Content(f, x.R, dbs[e.dir], e.fl.f) THEN "files"
            ELSE IF ToSet(e.extra) # {} THEN "extra"
            ELSE "database"
    [] e.e \in {"stuck", "crash", "panic"} -> e.e
    [] OTHER -> "harness"
Track == /\ (l > TLCGet(pid) => TLCSet(pid, l))
         /\ (l <= Len(Traces[pid]) /\ ~ENABLED Step
               => PrintT("REJECT " \o ToJson([tid |-> pid, at |-> l, why |-> Why, ev |-> Ev])))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Accepted ==
  \A i \in 1..Len(Traces) :
     TLCGet(i) = Len(Traces[i]) + 1 \/ PrintT("INCOMPLETE " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
