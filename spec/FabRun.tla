------------------------------- MODULE FabRun -------------------------------
(***************************************************************************)
(* What running targets means (properties C01-C05, C16), independent of    *)
(* how the Controller does it.                                             *)
(*                                                                         *)
(* A program is a graph of targets ("nodes") plus the Run calls that       *)
(* clients make on one controller.  Nodes of kind "leaf" and "dyn" are     *)
(* user-defined: their Run method is observable.  The other kinds are the  *)
(* combinators of package fab, whose meaning is given here denotationally, *)
(* in terms of what has happened to the user-defined targets below them:   *)
(*    Fin(x)    x is finished: nothing is left to do for it                *)
(*    Good(x)   (if Fin(x)) it succeeded                                   *)
(*    Errs(x)   (if Fin(x)) the errors of the failed leaves it reports     *)
(*    Dem(x,a)  what a request for x, with arguments a, demands so far     *)
(*                                                                         *)
(* Kinds of nodes:                                                         *)
(*   leaf   does something observable, then succeeds or fails              *)
(*   dyn    its Run calls the controller's Run, once per step, in order;   *)
(*          prop: a failing step makes it fail at once                     *)
(*   all, seq, deps (ref: main target, subs: dependencies),                *)
(*   arg    ArgTarget, name: reference by name                             *)
(*   files  a Files target without hash DB: ref is the subtarget; ins and  *)
(*          outs are paths (sequences of segments); the producers of       *)
(*          inputs are prerequisites                                       *)
(*   bad    cannot be run at all (unresolvable name, nil, no pointer)      *)
(***************************************************************************)
EXTENDS FabProgs

VARIABLES
  tid,                \* which program
  st,                 \* state of each node; only leaf and dyn ever change
  args,               \* the arguments with which each started node was entered
  pc,                 \* dyn nodes: the current step (0: not yet in a step)
  instep,             \* dyn nodes: is the step's Run call in progress
  call                \* state of each client call
vars == <<tid, st, args, pc, instep, call>>

P     == Progs[tid]
Nodes == 1..Len(P.nodes)
Calls == 1..Len(P.calls)
N(x)  == P.nodes[x]

Observable(x) == N(x).k \in {"leaf", "dyn"}

IsPrefixOf(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

(* Files y produces an input of Files x. *)
Produces(y, x) ==
  /\ y # x
  /\ N(y).k = "files" /\ N(x).k = "files"
  /\ \E o \in Range(N(y).outs) : \E i \in Range(N(x).ins) : IsPrefixOf(o, i)
Prereqs(x) == {y \in Nodes : Produces(y, x)}

RECURSIVE Fin(_), Good(_), Errs(_)

AllFin(S)  == \A s \in S : Fin(s)
AllGood(S) == \A s \in S : Good(s)

(* the position of the first element of a Seq that is not known to have succeeded *)
SeqPos(subs) ==
  LET bad == {k \in 1..Len(subs) : ~(Fin(subs[k]) /\ Good(subs[k]))}
  IN IF bad = {} THEN Len(subs) + 1 ELSE CHOOSE k \in bad : \A j \in bad : k <= j

(* first X, then (if all of it succeeded) y *)
ThenFin(X, y)  == IF ~AllFin(X) THEN FALSE ELSE IF AllGood(X) THEN Fin(y) ELSE TRUE
ThenGood(X, y) == IF AllGood(X) THEN Good(y) ELSE FALSE
ThenErrs(X, y) == IF AllGood(X) THEN Errs(y) ELSE UNION {Errs(s) : s \in X}

Fin(x) ==
  LET n == N(x) IN
  CASE n.k \in {"leaf", "dyn"} -> st[x] \in {"ok", "fail"}
    [] n.k = "all"   -> AllFin(Range(n.subs))
    [] n.k = "seq"   -> LET p == SeqPos(n.subs) IN IF p > Len(n.subs) THEN TRUE ELSE Fin(n.subs[p])
    [] n.k = "deps"  -> ThenFin(Range(n.subs), n.ref)
    [] n.k = "files" -> ThenFin(Prereqs(x), n.ref)
    [] n.k \in {"arg", "name"} -> Fin(n.ref)
    [] OTHER -> TRUE

Good(x) ==
  LET n == N(x) IN
  CASE n.k \in {"leaf", "dyn"} -> st[x] = "ok"
    [] n.k = "all"   -> AllGood(Range(n.subs))
    [] n.k = "seq"   -> SeqPos(n.subs) > Len(n.subs)
    [] n.k = "deps"  -> ThenGood(Range(n.subs), n.ref)
    [] n.k = "files" -> ThenGood(Prereqs(x), n.ref)
    [] n.k \in {"arg", "name"} -> Good(n.ref)
    [] OTHER -> FALSE

Errs(x) ==
  LET n == N(x) IN
  CASE n.k = "leaf" -> IF st[x] = "fail" THEN {x} ELSE {}
    [] n.k = "dyn"  -> IF st[x] # "fail" THEN {}
                       ELSE IF pc[x] <= Len(n.steps) THEN UNION {Errs(s) : s \in Range(n.steps[pc[x]])}
                       ELSE {x}
    [] n.k = "all"  -> UNION {Errs(s) : s \in Range(n.subs)}
    [] n.k = "seq"  -> LET p == SeqPos(n.subs) IN IF p > Len(n.subs) THEN {} ELSE Errs(n.subs[p])
    [] n.k = "deps"  -> ThenErrs(Range(n.subs), n.ref)
    [] n.k = "files" -> ThenErrs(Prereqs(x), n.ref)
    [] n.k \in {"arg", "name"} -> Errs(n.ref)
    [] OTHER -> {}

RECURSIVE Dem(_, _)
ThenDem(X, y, a) == (UNION {Dem(s, a) : s \in X})
                    \cup (IF AllFin(X) /\ AllGood(X) THEN Dem(y, a) ELSE {})
Dem(x, a) ==
  LET n == N(x) IN
  CASE n.k = "leaf" -> {<<x, a>>}
    [] n.k = "dyn"  -> {<<x, a>>} \cup UNION {UNION {Dem(s, args[x]) : s \in Range(n.steps[i])}
                                               : i \in {j \in 1..Len(n.steps) : j <= pc[x]}}
    [] n.k = "all"  -> UNION {Dem(s, a) : s \in Range(n.subs)}
    [] n.k = "seq"  -> UNION {Dem(n.subs[i], a) : i \in {j \in 1..Len(n.subs) : j <= SeqPos(n.subs)}}
    [] n.k = "deps"  -> ThenDem(Range(n.subs), n.ref, a)
    [] n.k = "files" -> ThenDem(Prereqs(x), n.ref, a)
    [] n.k = "arg"   -> Dem(n.ref, n.args)
    [] n.k = "name"  -> Dem(n.ref, a)
    [] OTHER -> {}

NoArgs == "-"

Demanded == UNION {UNION {Dem(t, NoArgs) : t \in Range(P.calls[c].targets)} : c \in {d \in Calls : call[d] # "none"}}

(***************************************************************************)
(* Transitions                                                             *)
(***************************************************************************)

InitOf(i) ==
  /\ tid = i
  /\ st = [x \in 1..Len(Progs[i].nodes) |-> "idle"]
  /\ args = [x \in 1..Len(Progs[i].nodes) |-> NoArgs]
  /\ pc = [x \in 1..Len(Progs[i].nodes) |-> 0]
  /\ instep = [x \in 1..Len(Progs[i].nodes) |-> FALSE]
  /\ call = [c \in 1..Len(Progs[i].calls) |-> "none"]

(* Client calls of one client happen one after the other. *)
Call(c) ==
  /\ call[c] = "none"
  /\ \A d \in Calls : d < c /\ P.calls[d].client = P.calls[c].client => call[d] = "done"
  /\ call' = [call EXCEPT ![c] = "active"]
  /\ UNCHANGED <<tid, st, args, pc, instep>>

RetOk(c, ok, errs) ==
  LET T == Range(P.calls[c].targets) IN
  /\ AllFin(T)
  /\ ok = AllGood(T)
  /\ errs = UNION {Errs(t) : t \in T}

Ret(c, ok, errs) ==
  /\ call[c] = "active"
  /\ RetOk(c, ok, errs)
  /\ call' = [call EXCEPT ![c] = "done"]
  /\ UNCHANGED <<tid, st, args, pc, instep>>

Enter(x, a) ==
  /\ st[x] = "idle"                     \* at most once
  /\ <<x, a>> \in Demanded
  /\ st' = [st EXCEPT ![x] = "run"]
  /\ args' = [args EXCEPT ![x] = a]
  /\ UNCHANGED <<tid, pc, instep, call>>

LeafExit(x, r) ==
  /\ N(x).k = "leaf" /\ st[x] = "run"
  /\ r = IF N(x).fail THEN "fail" ELSE "ok"
  /\ st' = [st EXCEPT ![x] = r]
  /\ UNCHANGED <<tid, args, pc, instep, call>>

DynCall(x) ==
  /\ N(x).k = "dyn" /\ st[x] = "run" /\ ~instep[x] /\ pc[x] < Len(N(x).steps)
  /\ N(x).prop /\ pc[x] > 0 => AllGood(Range(N(x).steps[pc[x]]))
  /\ pc' = [pc EXCEPT ![x] = @ + 1]
  /\ instep' = [instep EXCEPT ![x] = TRUE]
  /\ UNCHANGED <<tid, st, args, call>>

DynRetOk(x, ok, errs) ==
  LET T == Range(N(x).steps[pc[x]]) IN
  /\ AllFin(T)
  /\ ok = AllGood(T)
  /\ errs = UNION {Errs(t) : t \in T}

DynRet(x, ok, errs) ==
  /\ N(x).k = "dyn" /\ st[x] = "run" /\ instep[x]
  /\ DynRetOk(x, ok, errs)
  /\ instep' = [instep EXCEPT ![x] = FALSE]
  /\ UNCHANGED <<tid, st, args, pc, call>>

(* A dyn node ends after a failing step (pc stays at that step) if prop, *)
(* or after its last step, then with its own result (pc past the last).  *)
DynExit(x, r) ==
  /\ N(x).k = "dyn" /\ st[x] = "run" /\ ~instep[x]
  /\ \/ /\ N(x).prop /\ pc[x] > 0 /\ ~AllGood(Range(N(x).steps[pc[x]]))
        /\ r = "fail"
        /\ UNCHANGED pc
     \/ /\ pc[x] = Len(N(x).steps)
        /\ N(x).prop /\ pc[x] > 0 => AllGood(Range(N(x).steps[pc[x]]))
        /\ r = IF N(x).fail THEN "fail" ELSE "ok"
        /\ pc' = [pc EXCEPT ![x] = @ + 1]
  /\ st' = [st EXCEPT ![x] = r]
  /\ UNCHANGED <<tid, args, instep, call>>

Exit(x, r) == LeafExit(x, r) \/ DynExit(x, r)

Next ==
  \/ \E c \in Calls : Call(c) \/ Ret(c, AllGood(Range(P.calls[c].targets)), UNION {Errs(t) : t \in Range(P.calls[c].targets)})
  \/ \E x \in Nodes :
       \/ \E d \in Demanded : d[1] = x /\ Enter(x, d[2])
       \/ \E r \in {"ok", "fail"} : Exit(x, r)
       \/ DynCall(x)
       \/ pc[x] \in 1..Len(N(x).steps) /\ DynRet(x, AllGood(Range(N(x).steps[pc[x]])), UNION {Errs(t) : t \in Range(N(x).steps[pc[x]])})

Init == \E i \in 1..Len(Progs) : InitOf(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* Nothing more can happen without a client's next call: *)
Stuck == ~ ENABLED Next

(***************************************************************************)
(* Properties of the design                                                *)
(***************************************************************************)
TypeOK ==
  /\ st \in [Nodes -> {"idle", "run", "ok", "fail"}]
  /\ call \in [Calls -> {"none", "active", "done"}]
  /\ \A x \in Nodes : ~Observable(x) => st[x] = "idle"

(* Statuses only move forward: started at most once, one outcome. *)
Rank(s) == CASE s = "idle" -> 0 [] s = "run" -> 1 [] OTHER -> 2
Forward == [][\A x \in Nodes : Rank(st'[x]) >= Rank(st[x]) /\ (Rank(st[x]) = 2 => st'[x] = st[x])]_vars

(* A finished call has nothing running below it; outcomes are final. *)
RECURSIVE Below(_)
Below(x) == {x} \cup UNION {Below(y) : y \in Range(N(x).subs) \cup UNION {Range(s) : s \in Range(N(x).steps)}
                                        \cup (IF N(x).ref > 0 THEN {N(x).ref} ELSE {}) \cup Prereqs(x)}
FinNothingRunning ==
  \A c \in Calls : call[c] = "done" =>
     \A t \in Range(P.calls[c].targets) : Fin(t) /\ (\A y \in Below(t) : st[y] = "run" =>
        \E d \in Calls : call[d] = "active" /\ \E u \in Range(P.calls[d].targets) : y \in Below(u))
(* Finality: once finished, always finished with the same outcome. *)
Final == [][\A x \in Nodes : Fin(x) => Fin(x)' /\ Good(x)' = Good(x) /\ Errs(x)' = Errs(x)]_vars

(* The documented rules, stated directly on leaves. *)
OnlyIn(y, x) == \A z \in Nodes \ {x} : y \notin Range(N(z).subs) /\ N(z).ref # y
                  /\ \A s \in Range(N(z).steps) : y \notin Range(s)
NotCalled(y) == \A c \in Calls : y \notin Range(P.calls[c].targets)
SeqRule ==
  \A x \in Nodes : N(x).k = "seq" =>
    \A i, j \in 1..Len(N(x).subs) :
      LET a == N(x).subs[i]  b == N(x).subs[j] IN
      i < j /\ N(a).k = "leaf" /\ N(b).k = "leaf" /\ OnlyIn(b, x) /\ NotCalled(b)
      /\ (\A m \in 1..(j-1) : N(x).subs[m] # b)
        => (st[b] # "idle" => st[a] = "ok")
DepsRule ==
  \A x \in Nodes : N(x).k = "deps" =>
    LET b == N(x).ref IN
    N(b).k = "leaf" /\ OnlyIn(b, x) /\ NotCalled(b) /\ b \notin Range(N(x).subs) =>
      (st[b] # "idle" => \A a \in Range(N(x).subs) : N(a).k = "leaf" => st[a] = "ok")

Done == \A c \in Calls : call[c] = "done"
Terminates == <>Done
NoDeadlock == Done \/ ENABLED Next
=============================================================================
