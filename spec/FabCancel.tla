------------------------------ MODULE FabCancel ------------------------------
(***************************************************************************)
(* What happens to builds whose context is canceled (property C25).        *)
(*                                                                         *)
(* A program is a graph of targets and a sequence of builds, one after     *)
(* another, each with a controller and context of its own, sharing a hash  *)
(* DB.  Leaves are commands (k = "cmd") or Go functions that heed their    *)
(* context ("fn"); the other kinds are as in FabRun, except that Files     *)
(* targets have a hash DB.  A build is canceled at any moment, or even     *)
(* before it begins.                                                       *)
(*                                                                         *)
(* A leaf under a Files target belongs to that one only.                   *)
(***************************************************************************)
EXTENDS FabProgs

VARIABLES
  tid,   \* which program
  b,     \* which build (0: none yet)
  ctx,   \* of the current build: "none" (no build in progress), "live", "dead"
  st,    \* of each leaf in the current build: "", "run", "okrel"/"failrel" (told to end), "ok", "fail"
  rec,   \* of each Files target in the current build: "", "ok" (up to date, or recorded as such), "fail"
  utd,   \* the Files targets recorded as up to date in earlier builds
  late   \* the commands that were due when the context was canceled
vars == <<tid, b, ctx, st, rec, utd, late>>

P     == Progs[tid]
Nodes == 1..Len(P.nodes)
N(x)  == P.nodes[x]
Leaf(x) == N(x).k \in {"cmd", "fn"}

RECURSIVE Fin(_), Good(_), Dem(_), Under(_)
AllFin(S)  == \A s \in S : Fin(s)
AllGood(S) == \A s \in S : Good(s)
SeqPos(subs) ==
  LET bad == {k \in 1..Len(subs) : ~(Fin(subs[k]) /\ Good(subs[k]))}
  IN IF bad = {} THEN Len(subs) + 1 ELSE CHOOSE k \in bad : \A j \in bad : k <= j

(* x is finished: nothing is left to do for it. *)
Fin(x) ==
  LET n == N(x) IN
  CASE Leaf(x)       -> st[x] \in {"ok", "fail"}
    [] n.k = "all"   -> AllFin(Range(n.subs))
    [] n.k = "seq"   -> LET p == SeqPos(n.subs) IN IF p > Len(n.subs) THEN TRUE ELSE Fin(n.subs[p])
    [] n.k = "deps"  -> IF ~AllFin(Range(n.subs)) THEN FALSE ELSE IF AllGood(Range(n.subs)) THEN Fin(n.ref) ELSE TRUE
    [] n.k = "files" -> IF ~AllFin(Range(n.subs)) THEN FALSE
                        ELSE IF ~AllGood(Range(n.subs)) THEN TRUE
                        ELSE IF rec[x] # "" THEN TRUE
                        ELSE IF x \in utd THEN FALSE
                        ELSE IF Fin(n.ref) THEN ~Good(n.ref) ELSE FALSE
    [] OTHER         -> Fin(n.ref)    \* arg, name

(* (if Fin(x)) x succeeded. *)
Good(x) ==
  LET n == N(x) IN
  CASE Leaf(x)       -> st[x] = "ok"
    [] n.k = "all"   -> AllGood(Range(n.subs))
    [] n.k = "seq"   -> SeqPos(n.subs) > Len(n.subs)
    [] n.k = "deps"  -> AllGood(Range(n.subs)) /\ Good(n.ref)
    [] n.k = "files" -> AllGood(Range(n.subs)) /\ rec[x] = "ok"
    [] OTHER         -> Good(n.ref)

(* The leaves and Files targets whose turn has come (including those finished) in order to run x.  *)
(* (The subs of a Files target are the Files targets producing its inputs.)                       *)
Dem(x) ==
  LET n == N(x) IN
  CASE Leaf(x)       -> {x}
    [] n.k = "all"   -> UNION {Dem(s) : s \in Range(n.subs)}
    [] n.k = "seq"   -> UNION {Dem(n.subs[i]) : i \in {j \in 1..Len(n.subs) : j <= SeqPos(n.subs)}}
    [] n.k = "deps"  -> UNION {Dem(s) : s \in Range(n.subs)}
                        \cup (IF AllFin(Range(n.subs)) /\ AllGood(Range(n.subs)) THEN Dem(n.ref) ELSE {})
    [] n.k = "files" -> UNION {Dem(s) : s \in Range(n.subs)}
                        \cup (IF AllFin(Range(n.subs)) /\ AllGood(Range(n.subs))
                              THEN {x} \cup (IF x \in utd THEN {} ELSE Dem(n.ref)) ELSE {})
    [] OTHER         -> Dem(n.ref)

(* The leaves below x. *)
Under(x) ==
  LET n == N(x) IN
  CASE Leaf(x) -> {x}
    [] n.k \in {"all", "seq"} -> UNION {Under(s) : s \in Range(n.subs)}
    [] n.k = "deps" -> Under(n.ref) \cup UNION {Under(s) : s \in Range(n.subs)}
    [] OTHER -> Under(n.ref)

Wanted   == IF ctx = "none" THEN {} ELSE Range(P.builds[b].targets)
Demanded == UNION {Dem(t) : t \in Wanted}
Due      == {x \in Demanded : Leaf(x) /\ st[x] = ""}
Running  == {x \in Nodes : st[x] = "run"}
Ready(x) == x \in Demanded /\ N(x).k = "files" /\ rec[x] = ""   \* to look into or write to the hash DB
            /\ (IF x \in utd THEN TRUE ELSE IF Fin(N(x).ref) THEN Good(N(x).ref) ELSE FALSE)

Init == /\ tid \in 1..Len(Progs) /\ b = 0 /\ ctx = "none" /\ utd = {} /\ late = {}
        /\ st = [x \in 1..Len(Progs[tid].nodes) |-> ""]
        /\ rec = [x \in 1..Len(Progs[tid].nodes) |-> ""]

Build ==
  /\ ctx = "none" /\ b < Len(P.builds)
  /\ b' = b + 1
  /\ ctx' = (IF P.builds[b + 1].pre THEN "dead" ELSE "live")
  /\ st' = [x \in Nodes |-> ""] /\ rec' = [x \in Nodes |-> ""] /\ late' = {}
  /\ UNCHANGED <<tid, utd>>

(* A command starts while the context is live, *)
(* or it was being started at the moment the context was canceled.  A function can always begin. *)
Start(x) ==
  /\ x \in Due
  /\ ctx = "live" \/ N(x).k = "fn" \/ x \in late
  /\ st' = [st EXCEPT ![x] = "run"]
  /\ UNCHANGED <<tid, b, ctx, rec, utd, late>>

(* The surroundings have a leaf end. *)
Release(x, ok) ==
  /\ st[x] = "run"
  /\ st' = [st EXCEPT ![x] = IF ok THEN "okrel" ELSE "failrel"]
  /\ UNCHANGED <<tid, b, ctx, rec, utd, late>>

Exit(x) ==
  /\ \/ st[x] = "okrel" /\ st' = [st EXCEPT ![x] = "ok"]
     \/ st[x] = "failrel" /\ st' = [st EXCEPT ![x] = "fail"]
     \* killed, or having noticed that the context is canceled
     \/ st[x] \in {"run", "okrel"} /\ ctx = "dead" /\ st' = [st EXCEPT ![x] = "fail"]
     \* refused
     \/ x \in Due /\ ctx = "dead" /\ st' = [st EXCEPT ![x] = "fail"]
  /\ UNCHANGED <<tid, b, ctx, rec, utd, late>>

(* A Files target turns out to be, or becomes, up to date - or not, because the hash DB heeds the context. *)
Record(x) ==
  /\ Ready(x)
  /\ \E r \in (IF ctx = "dead" THEN {"ok", "fail"} ELSE {"ok"}) : rec' = [rec EXCEPT ![x] = r]
  /\ UNCHANGED <<tid, b, ctx, st, utd, late>>

Cancel ==
  /\ ctx = "live"
  /\ ctx' = "dead"
  /\ late' = {x \in Due : N(x).k = "cmd"}
  /\ UNCHANGED <<tid, b, st, rec, utd>>

Return(ok) ==
  /\ ctx # "none" /\ AllFin(Wanted)
  /\ ok => AllGood(Wanted)
  /\ ctx = "live" => ok = AllGood(Wanted)     \* (a canceled build may say that it was)
  /\ ctx' = "none" /\ late' = {}
  /\ utd' = utd \cup {x \in Nodes : rec[x] = "ok"}
  /\ UNCHANGED <<tid, b, st, rec>>

Internal == \E x \in Nodes : Start(x) \/ Exit(x) \/ Record(x)
Next == Build \/ Internal \/ Cancel \/ Return(TRUE) \/ Return(FALSE) \/ \E x \in Nodes : Release(x, TRUE) \/ Release(x, FALSE)
Spec == Init /\ [][Next]_vars

(* Consequences *)
TypeOK == /\ \A x \in Nodes : st[x] \in {"", "run", "okrel", "failrel", "ok", "fail"} /\ rec[x] \in {"", "ok", "fail"}
          /\ ctx \in {"none", "live", "dead"} /\ utd \subseteq Nodes
NothingLeft == ctx = "none" => \A x \in Nodes : st[x] \in {"", "ok", "fail"}
(* Nothing is recorded as up to date whose leaves have not done their work, in this build or an earlier one. *)
OnlyComplete == \A x \in Nodes : (rec[x] = "ok" /\ x \notin utd) => Good(N(x).ref)
(* A canceled build that returns success has done everything. *)
Honest == (ctx # "none" /\ AllFin(Wanted) /\ AllGood(Wanted)) => Due = {} /\ \A x \in Demanded : Leaf(x) => st[x] = "ok"
(* However often the surroundings let a leaf run on, a canceled build ends. *)
Fair == SF_vars(Internal) /\ WF_vars(Return(TRUE)) /\ WF_vars(Return(FALSE))
FairSpec == Spec /\ Fair
Ends == (ctx = "dead") ~> (ctx = "none")
(* When the context is dead, commands that were not due then do not start. *)
NoMore == [][ctx = "dead" => \A x \in Nodes : (N(x).k = "cmd" /\ st[x] = "" /\ st'[x] = "run") => x \in late]_vars
=============================================================================
