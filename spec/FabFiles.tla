------------------------------ MODULE FabFiles ------------------------------
(***************************************************************************)
(* What Files targets do (properties C06-C09, C11): which subtargets run   *)
(* in a build, given everything that happened before.                      *)
(*                                                                         *)
(* A project has Files targets ("nodes") with input and output items       *)
(* (files or directories), a rule (a canonical description of everything   *)
(* nested in the subtarget), and possibly another node as the subtarget.   *)
(* The definitions (def) may change from one build to the next.            *)
(* The file system is a set of <<path, content>>, including <<path, "dir">>*)
(* for directories; paths are sequences of names.                          *)
(*                                                                         *)
(* rec: the snapshots (rule, inputs, outputs) that some successful build   *)
(*      has recorded, so that finding them again means "up to date"        *)
(* seen: the snapshots at the ends of earlier successful builds, whether   *)
(*      or not they were recorded (e.g. because of a crash afterwards),    *)
(*      in a form ignoring things that need not matter                     *)
(***************************************************************************)
EXTENDS FabProgs

VARIABLES
  tid,    \* which project (constant in each behaviour)
  def,    \* sequence of definitions [ins, outs, rule, sub]
  fs,     \* the file system
  run,    \* the current build: [on, force, dry, db, roots]
  st,     \* what the (leaf) subtargets have done in this build: idle, run, ok, fail
  rec, seen
cvars == <<tid, def, fs, run, st, rec, seen>>

NoRun == [on |-> FALSE, force |-> FALSE, dry |-> FALSE, db |-> "none", roots |-> {}]

Nodes == 1..Len(def)
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

Prereqs(x) == {y \in Nodes \ {x} : \E o \in Range(def[y].outs) : \E i \in Range(def[x].ins) : Prefix(o, i)}

(***************************************************************************)
(* Snapshots                                                               *)
(***************************************************************************)
RECURSIVE RuleOf(_)
RuleOf(x) == IF def[x].sub = 0 THEN <<def[x].rule>>
             ELSE LET y == def[x].sub IN <<def[x].rule, def[y].ins, def[y].outs, RuleOf(y)>>

Below(item)   == {e \in fs : Prefix(item, e[1])}
Listing(items) == UNION {LET B == Below(i) IN IF B = {} THEN {<<i, "missing">>} ELSE B : i \in Range(items)}

Strict(x) == <<RuleOf(x), Range(def[x].ins), Range(def[x].outs), Listing(def[x].ins), Listing(def[x].outs)>>
FilesIn(L) == {e \in L : e[2] \notin {"dir", "missing"}}
Coarse(x) == <<RuleOf(x), FilesIn(Listing(def[x].ins)), FilesIn(Listing(def[x].outs))>>
Readable(x) == \A e \in Listing(def[x].ins) \cup Listing(def[x].outs) : e[2] # "unreadable"

(***************************************************************************)
(* The up-to-date decision.  (Between MaySkip and MustSkip either is fine.) *)
(***************************************************************************)
UsesDB    == run.db # "none" /\ ~run.dry
Consults  == UsesDB /\ ~run.force
MustSkip(x) == IF Consults /\ run.db \in {"ok", "adderr"} THEN Readable(x) /\ Strict(x) \in rec ELSE FALSE
MaySkip(x)  == IF run.force THEN FALSE
               ELSE IF run.db = "haserr" /\ ~run.dry THEN FALSE ELSE Readable(x) /\ Coarse(x) \in seen

(***************************************************************************)
(* The set of outcomes that x may have by now, or "pend".                  *)
(***************************************************************************)
RECURSIVE Entered(_), Outs(_)
Entered(x) == IF def[x].sub = 0 THEN st[x] # "idle" ELSE Entered(def[x].sub)

(* the subtarget ran *)
RunOuts(x) ==
  LET s == IF def[x].sub = 0
           THEN {CASE st[x] \in {"idle", "run"} -> "pend" [] OTHER -> st[x]}
           ELSE Outs(def[x].sub)
      late == IF UsesDB /\ (run.db = "adderr" \/ ~Readable(x)) THEN {"fail"} ELSE {"ok"}
      late2 == IF UsesDB /\ run.db # "adderr" /\ ~Readable(x) THEN {"ok", "fail"} ELSE late
  IN UNION {IF o = "ok" THEN late2 ELSE {o} : o \in s}

(* the prerequisites succeeded *)
BodyOuts(x) ==
  IF Entered(x) THEN (IF Consults /\ run.db = "haserr" THEN (RunOuts(x) \ {"ok"}) \cup {"fail"} ELSE RunOuts(x))
  ELSE IF Consults /\ run.db = "haserr" THEN {"fail"}
  ELSE IF Consults /\ ~Readable(x) THEN {"fail"} \cup RunOuts(x)
  ELSE IF MustSkip(x) THEN {"ok"}
  ELSE (IF MaySkip(x) THEN {"ok"} ELSE {}) \cup RunOuts(x)

PreOuts(x) ==
  LET O == {Outs(y) : y \in Prereqs(x)} IN
  (IF \E o \in O : "pend" \in o THEN {"pend"} ELSE {})
  \cup (IF \A o \in O : o # {"pend"}
        THEN (IF \E o \in O : "fail" \in o THEN {"fail"} ELSE {})
             \cup (IF \A o \in O : "ok" \in o THEN {"ok"} ELSE {})
        ELSE {})

Outs(x) == LET p == PreOuts(x) IN (p \ {"ok"}) \cup (IF "ok" \in p THEN BodyOuts(x) ELSE {})

(* Nodes that may be demanded by now, and whose subtargets may run. *)
RECURSIVE DemFrom(_)
MayRun(x) == /\ "ok" \in PreOuts(x)
             /\ IF Entered(x) THEN TRUE
                ELSE IF Consults /\ run.db = "haserr" THEN FALSE ELSE ~MustSkip(x)
DemFrom(x) == {x} \cup UNION {DemFrom(y) : y \in Prereqs(x)}
                  \cup (IF def[x].sub > 0 THEN (IF MayRun(x) THEN DemFrom(def[x].sub) ELSE {}) ELSE {})
Demanded == UNION {DemFrom(r) : r \in run.roots}

(***************************************************************************)
(* Guards and effects of what can be observed                              *)
(***************************************************************************)
EnterOk(x) == run.on /\ def[x].sub = 0 /\ st[x] = "idle" /\ x \in Demanded /\ MayRun(x)

EndOk(ok) ==
  /\ run.on
  /\ \A x \in Nodes : st[x] # "run"
  /\ IF ok THEN \A r \in run.roots : "ok" \in Outs(r)
     ELSE /\ \A r \in run.roots : Outs(r) # {"pend"}
          /\ \E r \in run.roots : "fail" \in Outs(r)

(* What a build that has ended has recorded, for certain *)
RanOk(x) == /\ Readable(x)
            /\ IF def[x].sub = 0 THEN st[x] = "ok"
               ELSE (Entered(x) \/ ~MaySkip(x)) /\ x \in Demanded /\ PreOuts(x) = {"ok"} /\ Outs(def[x].sub) = {"ok"}
Recorded == IF UsesDB /\ run.db \in {"ok", "haserr"}
            THEN {Strict(x) : x \in {y \in Nodes : RanOk(y) /\ Outs(y) = {"ok"}}} ELSE {}
(* and what it might have been recorded as built successfully, even if interrupted. *)
MightHaveRun(x) == IF def[x].sub = 0 THEN st[x] = "ok" ELSE "ok" \in Outs(def[x].sub) /\ x \in Demanded
Built == IF run.dry \/ (UsesDB /\ run.db = "adderr") THEN {}
         ELSE {Coarse(x) : x \in {y \in Nodes : MightHaveRun(y) /\ "ok" \in Outs(y)}}

SetFs(f) == /\ ~run.on
            /\ fs' = f
            /\ UNCHANGED <<tid, def, run, st, rec, seen>>

StartRun(d, m) ==
  /\ ~run.on
  /\ def' = d /\ run' = m
  /\ st' = [x \in 1..Len(d) |-> "idle"]
  /\ UNCHANGED <<tid, fs, rec, seen>>

EnterEff(x) == st' = [st EXCEPT ![x] = "run"] /\ UNCHANGED <<tid, def, fs, run, rec, seen>>
ExitEff(x, ok, f) == st' = [st EXCEPT ![x] = IF ok THEN "ok" ELSE "fail"] /\ fs' = f /\ UNCHANGED <<tid, def, run, rec, seen>>
EndEff ==
  /\ rec' = rec \cup Recorded
  /\ seen' = seen \cup Built
  /\ run' = NoRun
  /\ UNCHANGED <<tid, def, fs, st>>
CrashEff(f) ==
  /\ seen' = seen \cup Built
  /\ run' = NoRun
  /\ fs' = f
  /\ UNCHANGED <<tid, def, st, rec>>

Enter(x)       == EnterOk(x) /\ EnterEff(x)
Exit(x, ok, f) == run.on /\ st[x] = "run" /\ (run.dry => f = fs) /\ ExitEff(x, ok, f)
End(ok)        == EndOk(ok) /\ EndEff
Crash(f)       == run.on /\ CrashEff(f)
=============================================================================
