---------------------------- MODULE FabController ----------------------------
(***************************************************************************)
(* How the Controller runs targets: the structure of Controller.Run and of *)
(* the combinators' Run methods, with one goroutine per requested target,  *)
(* a table of outcomes protected by a lock, and a gate per outcome.        *)
(* It refines FabRun (properties C01-C05), and always finishes.            *)
(***************************************************************************)
EXTENDS FabProgs, TLC

VARIABLES
  tid,      \* the program
  call,     \* client calls
  ran,      \* the outcome table: "no" entry, "claimed" (gate closed), "open"
  res,      \* the outcome in the table
  body,     \* the target's Run method: "no", "in", "out"
  runs,     \* how often it was entered
  k, inrun, \* the target's progress: which call of Controller.Run it is in
  bargs,    \* the arguments in its context
  g         \* goroutines of Controller.Run, and what they report
vars == <<tid, call, ran, res, body, runs, k, inrun, bargs, g>>

P     == Progs[tid]
Nodes == 1..Len(P.nodes)
Calls == 1..Len(P.calls)
N(x)  == P.nodes[x]
Observable(x) == N(x).k \in {"leaf", "dyn"}

(* FabRun's Observable nodes only *)
A == INSTANCE FabRun WITH
  st <- [x \in Nodes |->
           IF ~Observable(x) THEN "idle"
           ELSE CASE body[x] = "no" -> "idle" [] body[x] = "in" -> "run"
                  [] OTHER -> IF res[x].ok THEN "ok" ELSE "fail"],
  args <- [x \in Nodes |-> IF Observable(x) THEN bargs[x] ELSE "-"],
  pc <- [x \in Nodes |-> IF N(x).k = "dyn" THEN k[x] ELSE 0],
  instep <- [x \in Nodes |-> IF N(x).k = "dyn" THEN inrun[x] ELSE FALSE]

(***************************************************************************)
(* What the Run methods do: a sequence of calls of Controller.Run.         *)
(***************************************************************************)
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SetToSeq(S \ {m})

StepsOf(p, x) ==
  LET n == p.nodes[x] IN
  CASE n.k = "dyn"   -> n.steps
    [] n.k = "all"   -> <<n.subs>>
    [] n.k = "seq"   -> [i \in 1..Len(n.subs) |-> <<n.subs[i]>>]
    [] n.k = "deps"  -> <<n.subs, <<n.ref>>>>
    [] n.k = "arg"   -> <<<<n.ref>>>>
    [] n.k = "files" -> <<SetToSeq({y \in 1..Len(p.nodes) :
                            /\ y # x /\ p.nodes[y].k = "files"
                            /\ \E o \in Range(p.nodes[y].outs) : \E i \in Range(n.ins) :
                                 Len(o) <= Len(i) /\ SubSeq(i, 1, Len(o)) = o}), <<n.ref>>>>
    [] OTHER -> <<>>
Steps(x) == StepsOf(P, x)
StopOnErr(x) == N(x).k # "dyn" \/ N(x).prop

(* A reference by name is resolved before the outcome is looked up. *)
Resolve(x) == IF N(x).k = "name" THEN N(x).ref ELSE x

(* A frame is a call of Controller.Run, by client call c or by node x in its i-th step. *)
Frames(p) == {<<"c", c, 0>> : c \in 1..Len(p.calls)}
             \cup UNION {{<<"n", x, i>> : i \in 1..Len(StepsOf(p, x))} : x \in 1..Len(p.nodes)}
Req(p, f) == IF f[1] = "c" THEN p.calls[f[2]].targets ELSE StepsOf(p, f[2])[f[3]]
Goroutines(p) == UNION {{<<f, i>> : i \in 1..Len(Req(p, f))} : f \in Frames(p)}

Active(f) == IF f[1] = "c" THEN call[f[2]] = "active" ELSE inrun[f[2]] /\ k[f[2]] = f[3]
CtxArgs(f) == IF f[1] = "c" THEN "-"
              ELSE IF N(f[2]).k = "arg" THEN N(f[2]).args ELSE bargs[f[2]]

Mine(f) == {h \in Goroutines(P) : h[1] = f}
Joined(f) == \A h \in Mine(f) : g[h].s = "done"
Ok(f) == \A h \in Mine(f) : g[h].ok
ErrsOf(f) == UNION {g[h].errs : h \in Mine(f)}

(***************************************************************************)

Init ==
  /\ tid \in 1..Len(Progs)
  /\ call = [c \in 1..Len(Progs[tid].calls) |-> "none"]
  /\ LET D == 1..Len(Progs[tid].nodes) IN
     /\ ran = [x \in D |-> "no"]
     /\ res = [x \in D |-> [ok |-> TRUE, errs |-> {}]]
     /\ body = [x \in D |-> "no"]
     /\ runs = [x \in D |-> 0]
     /\ k = [x \in D |-> 0]
     /\ inrun = [x \in D |-> FALSE]
     /\ bargs = [x \in D |-> "-"]
  /\ g = [h \in Goroutines(Progs[tid]) |-> [s |-> "new", ok |-> TRUE, errs |-> {}]]

CallStart(c) ==
  /\ call[c] = "none"
  /\ \A d \in Calls : d < c /\ P.calls[d].client = P.calls[c].client => call[d] = "done"
  /\ call' = [call EXCEPT ![c] = "active"]
  /\ UNCHANGED <<tid, ran, res, body, runs, k, inrun, bargs, g>>

CallReturn(c) ==
  /\ call[c] = "active" /\ Joined(<<"c", c, 0>>)
  /\ call' = [call EXCEPT ![c] = "done"]
  /\ UNCHANGED <<tid, ran, res, body, runs, k, inrun, bargs, g>>

Target(h) == Resolve(Req(P, h[1])[h[2]])
Finish(h, r) == g' = [g EXCEPT ![h] = [s |-> "done", ok |-> r.ok, errs |-> r.errs]]

(* the critical section: look up the outcome, or claim the target *)
Claim(h) ==
  /\ g[h].s = "new" /\ Active(h[1])
  /\ LET t == Target(h) IN
     IF N(t).k = "bad" THEN Finish(h, [ok |-> FALSE, errs |-> {}]) /\ UNCHANGED ran
     ELSE IF ran[t] = "no"
          THEN ran' = [ran EXCEPT ![t] = "claimed"] /\ g' = [g EXCEPT ![h].s = "own"]
          ELSE UNCHANGED ran /\ g' = [g EXCEPT ![h].s = "wait"]
  /\ UNCHANGED <<tid, call, res, body, runs, k, inrun, bargs>>

Enter(h) ==
  /\ g[h].s = "own" /\ body[Target(h)] = "no"
  /\ body' = [body EXCEPT ![Target(h)] = "in"]
  /\ runs' = [runs EXCEPT ![Target(h)] = @ + 1]
  /\ bargs' = [bargs EXCEPT ![Target(h)] = CtxArgs(h[1])]
  /\ UNCHANGED <<tid, call, ran, res, k, inrun, g>>

Failed(x) == k[x] > 0 /\ StopOnErr(x) /\ ~Ok(<<"n", x, k[x]>>)

StepStart(x) ==
  /\ body[x] = "in" /\ ~inrun[x] /\ k[x] < Len(Steps(x)) /\ ~Failed(x)
  /\ k' = [k EXCEPT ![x] = @ + 1]
  /\ inrun' = [inrun EXCEPT ![x] = TRUE]
  /\ UNCHANGED <<tid, call, ran, res, body, runs, bargs, g>>

StepEnd(x) ==
  /\ inrun[x] /\ Joined(<<"n", x, k[x]>>)
  /\ inrun' = [inrun EXCEPT ![x] = FALSE]
  /\ UNCHANGED <<tid, call, ran, res, body, runs, k, bargs, g>>

Exit(x) ==
  /\ body[x] = "in" /\ ~inrun[x]
  /\ IF Failed(x)
     THEN /\ res' = [res EXCEPT ![x] = [ok |-> FALSE, errs |-> ErrsOf(<<"n", x, k[x]>>)]]
          /\ UNCHANGED k
     ELSE /\ k[x] = Len(Steps(x))
          /\ res' = [res EXCEPT ![x] = [ok |-> ~N(x).fail, errs |-> IF N(x).fail THEN {x} ELSE {}]]
          /\ k' = IF N(x).k = "dyn" THEN [k EXCEPT ![x] = @ + 1] ELSE k
  /\ body' = [body EXCEPT ![x] = "out"]
  /\ UNCHANGED <<tid, call, ran, runs, inrun, bargs, g>>

(* store the outcome, open the gate *)
Open(h) ==
  /\ g[h].s = "own" /\ body[Target(h)] = "out"
  /\ ran' = [ran EXCEPT ![Target(h)] = "open"]
  /\ Finish(h, res[Target(h)])
  /\ UNCHANGED <<tid, call, res, body, runs, k, inrun, bargs>>

Wake(h) ==
  /\ g[h].s = "wait" /\ ran[Target(h)] = "open"
  /\ Finish(h, res[Target(h)])
  /\ UNCHANGED <<tid, call, ran, res, body, runs, k, inrun, bargs>>

Next ==
  \/ \E c \in Calls : CallStart(c) \/ CallReturn(c)
  \/ \E h \in DOMAIN g : Claim(h) \/ Enter(h) \/ Open(h) \/ Wake(h)
  \/ \E x \in Nodes : StepStart(x) \/ StepEnd(x) \/ Exit(x)

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(***************************************************************************)
Refines == A!Init /\ [][A!Next]_A!vars
RunsOnce == \A x \in Nodes : runs[x] <= 1
Finishes == <>(\A c \in Calls : call[c] = "done")
(* Errors are those of the abstract specification, also for the combinators. *)
SameOutcome == \A x \in Nodes : ran[x] = "open" => A!Fin(x) /\ A!Good(x) = res[x].ok /\ A!Errs(x) = res[x].errs
(* Everything requested together is in progress together: *)
(* a goroutine is never prevented from entering or waiting for its target. *)
NeverBlocked == \A h \in DOMAIN g :
  /\ Active(h[1]) /\ g[h].s = "new" => ENABLED Claim(h)
  /\ g[h].s = "own" /\ body[Target(h)] = "no" => ENABLED Enter(h)
=============================================================================
