----------------------------- MODULE FabRunGen -----------------------------
(***************************************************************************)
(* Behaviours of FabRun to be replayed on the real code.  What the         *)
(* environment does (client calls, leaves finishing) is chosen freely, but *)
(* only when everything the controller owes has happened; each choice is   *)
(* recorded together with the leaves that must be running and the calls    *)
(* that must have returned by then.                                        *)
(***************************************************************************)
EXTENDS FabRun, TLC, Json

VARIABLE hist
gvars == <<vars, hist>>

StepErrs(x) == UNION {Errs(t) : t \in Range(N(x).steps[pc[x]])}
StepGood(x) == AllGood(Range(N(x).steps[pc[x]]))
StepFin(x)  == AllFin(Range(N(x).steps[pc[x]]))

EnterNow   == {d \in Demanded : st[d[1]] = "idle"}
DynRetNow  == {x \in Nodes : N(x).k = "dyn" /\ st[x] = "run" /\ instep[x] /\ StepFin(x)}
DynNextNow == {x \in Nodes : N(x).k = "dyn" /\ st[x] = "run" /\ ~instep[x]}
RetNow     == {c \in Calls : call[c] = "active" /\ AllFin(Range(P.calls[c].targets))}

Quiet == EnterNow = {} /\ DynRetNow = {} /\ DynNextNow = {} /\ RetNow = {}

Auto ==
  /\ UNCHANGED hist
  /\ IF EnterNow # {} THEN LET d == CHOOSE e \in EnterNow : TRUE IN Enter(d[1], d[2])
     ELSE IF DynRetNow # {} THEN LET x == CHOOSE e \in DynRetNow : TRUE IN DynRet(x, StepGood(x), StepErrs(x))
     ELSE IF DynNextNow # {} THEN LET x == CHOOSE e \in DynNextNow : TRUE IN
            DynCall(x) \/ DynExit(x, "ok") \/ DynExit(x, "fail")
     ELSE LET c == CHOOSE e \in RetNow : TRUE IN
            Ret(c, AllGood(Range(P.calls[c].targets)), UNION {Errs(t) : t \in Range(P.calls[c].targets)})

Running  == {x \in Nodes : N(x).k = "leaf" /\ st[x] = "run"}
Returned == {c \in Calls : call[c] = "done"}
Rec(op, arg) == [op |-> op, arg |-> arg, run |-> Running, ret |-> Returned]

Env ==
  /\ Quiet
  /\ \/ \E c \in Calls : Call(c) /\ hist' = Append(hist, Rec("call", c))
     \/ \E x \in Running : LeafExit(x, IF N(x).fail THEN "fail" ELSE "ok") /\ hist' = Append(hist, Rec("fin", x))

GenInit == Init /\ hist = <<>>
GenNext == IF Quiet THEN Env ELSE Auto
GenSpec == GenInit /\ [][GenNext]_gvars

Terminal == Quiet /\ Running = {} /\ \A c \in Calls : call[c] = "done"
Emit == Terminal => PrintT("BEH " \o ToJson([tid |-> tid, steps |-> Append(hist, Rec("end", 0))]))
(* The design never gets stuck before everything is done. *)
NoStuck == Quiet /\ Running = {} => \A c \in Calls : call[c] = "done" \/ ENABLED Call(c) \/ \E d \in Calls : ENABLED Call(d)
=============================================================================
