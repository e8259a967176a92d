---------------------------- MODULE FabDepsTrace ----------------------------
(***************************************************************************)
(* Do the real dependency lists and targets made from them do what FabDeps *)
(* says?  TRACES[i] is what was recorded.                                  *)
(***************************************************************************)
EXTENDS FabDeps, TLC, TLCExt, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLE l
tvars == <<dvars, l>>
Ev == Traces[pid][l]

PathsOf(d, names) == [i \in 1..Len(names) |-> Denotes(d, names[i])]
Files_(e) == PathsOf(e.dir, e.files)
Incs(e) == PathsOf(e.dir, e.incs)
AllExist(e) == \A i \in 1..Len(Files_(e)) : Files_(e)[i] \in DOMAIN fs
ProtoSet(e) == UNION {ProtoDeps(fs, Incs(e), Files_(e)[i]) : i \in 1..Len(Files_(e))}
Made == [imports |-> <<>>, v |-> "made", kind |-> "data", embeds |-> <<>>, also |-> <<>>]

(* What the compiler was told. *)
GoodProtoc(e) == IF e.ran THEN e.gotincs = Incs(e) /\ e.gotopts = e.opts /\ e.gotfiles = Files_(e) ELSE TRUE
GoodGo(e) == IF e.ran THEN e.gotdir = Denotes(e.dir, e.files[1]) /\ e.gotout = Denotes(e.dir, e.outs[1]) /\ e.gotopts = e.opts ELSE TRUE
GoSet(e) == GoDeps(fs, Denotes(e.dir, e.files[1]), FALSE, FALSE)
GoWide(e) == GoSet(e) \cup Below(fs, GoAlso(fs, Denotes(e.dir, e.files[1]), FALSE, FALSE))

Step ==
  /\ l <= Len(Traces[pid])
  /\ l' = l + 1
  /\ LET e == Ev IN
     CASE e.e = "put" -> Put(e.p, e.c)
       [] e.e = "del" -> Del(e.p)
       [] e.e = "protodeps" ->
            /\ IF AllExist(e) THEN e.ok /\ ToSet(e.got) = ProtoSet(e) ELSE ~e.ok
            /\ UNCHANGED dvars
       [] e.e = "protoc" ->
            IF AllExist(e)
            THEN GoodProtoc(e) /\ Build(e.t, ProtoSet(e), ProtoSet(e), ToSet(PathsOf(e.dir, e.outs)), Made, e.dry, e.force, e.fails, e.ran, e.ok)
            ELSE ~e.ran /\ ~e.ok /\ UNCHANGED dvars
       [] e.e = "godeps" ->
            LET root == Denotes(e.dir, e.files[1]) must == GoDeps(fs, root, e.rec, e.tests) IN
            /\ e.ok
            /\ must \subseteq ToSet(e.got)
            /\ ToSet(e.got) \subseteq must \cup GoAlso(fs, root, e.rec, e.tests)
            /\ UNCHANGED dvars
       [] e.e = "gobuild" -> GoodGo(e) /\ Build(e.t, GoSet(e), GoWide(e), {Denotes(e.dir, e.outs[1])}, Made, e.dry, e.force, e.fails, e.ran, e.ok)
       [] e.e = "decls" -> Build(e.t, GoSet(e), GoWide(e), {Denotes(e.dir, e.outs[1])}, [Made EXCEPT !.v = e.made], e.dry, e.force, FALSE, e.ran, e.ok)
       [] OTHER -> FALSE

TraceInit == pid \in 1..Len(Traces) /\ fs = [p \in {} |-> Absent] /\ built = {} /\ l = 1
TraceSpec == TraceInit /\ [][Step]_tvars

Why == LET e == Ev IN
  CASE e.e = "protodeps" -> IF AllExist(e) # e.ok THEN "result" ELSE IF ProtoSet(e) \subseteq ToSet(e.got) THEN "extra" ELSE "missing"
    [] e.e = "godeps" -> IF ~e.ok THEN "result" ELSE IF GoDeps(fs, Denotes(e.dir, e.files[1]), e.rec, e.tests) \subseteq ToSet(e.got) THEN "extra" ELSE "missing"
    [] e.e \in {"protoc", "gobuild", "decls"} ->
         IF e.ran /\ e.dry THEN "dryrun"
         ELSE IF e.e = "protoc" /\ ~GoodProtoc(e) THEN "names" ELSE IF e.e = "gobuild" /\ ~GoodGo(e) THEN "names"
         ELSE IF e.ran THEN (IF e.ok = ~e.fails THEN "needless" ELSE "result")
         ELSE IF e.ok THEN (IF e.dry THEN "dryrun" ELSE "skipped") ELSE "result"
    [] e.e \in {"stuck", "crash", "panic"} -> e.e
    [] OTHER -> "harness"
Track == /\ (l > TLCGet(pid) => TLCSet(pid, l))
         /\ (l <= Len(Traces[pid]) /\ ~ENABLED Step
               => PrintT("REJECT " \o ToJson([tid |-> pid, at |-> l, why |-> Why, ev |-> Ev])))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Accepted ==
  \A i \in 1..Len(Traces) :
     TLCGet(i) = Len(Traces[i]) + 1 \/ PrintT("INCOMPLETE " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
