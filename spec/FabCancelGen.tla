---------------------------- MODULE FabCancelGen ----------------------------
(***************************************************************************)
(* Behaviours of FabCancel to be replayed on the real code.  The           *)
(* surroundings act when everything that fab owes has happened, except     *)
(* that the context may be canceled right after a leaf was told to end     *)
(* (or a build has begun).                                                 *)
(***************************************************************************)
EXTENDS FabCancel, TLC, Json

VARIABLES hist, hasty
gvars == <<vars, hist, hasty>>

InternalNow == Due # {} \/ (\E x \in Nodes : st[x] \in {"okrel", "failrel"}) \/ (\E x \in Nodes : Ready(x))
Over  == ctx # "none" /\ AllFin(Wanted)
Quiet == ctx = "live" /\ ~InternalNow /\ ~Over

(* what must be the case before the operation *)
Op(op, x, ok, wait) == [op |-> op, x |-> x, ok |-> ok, wait |-> wait, run |-> Running,
                        recs |-> {y \in Nodes : rec[y] = "ok" /\ y \notin utd}]
Log(o) == hist' = Append(hist, o)

Auto == /\ UNCHANGED <<hist, hasty>>
        /\ IF Due # {} THEN (\E x \in Due : Start(x))
           ELSE IF \E x \in Nodes : st[x] \in {"okrel", "failrel"} THEN (\E x \in Nodes : st[x] \in {"okrel", "failrel"} /\ Exit(x))
           ELSE \E x \in Nodes : Record(x)
(* After cancellation everything ends by itself. *)
Dying == ctx = "dead" /\ ~Over /\ UNCHANGED <<hist, hasty>> /\ \E x \in Nodes : Exit(x) \/ Record(x)

Ops == \/ \E x \in Running : Release(x, ~N(x).fail) /\ Log(Op("release", x, ~N(x).fail, TRUE)) /\ hasty' \in {TRUE, FALSE, FALSE}
       \/ P.builds[b].cancel /\ Cancel /\ Log(Op("cancel", 0, TRUE, TRUE)) /\ UNCHANGED hasty

GenInit == Init /\ hist = <<>> /\ hasty = FALSE
GenNext ==
  IF ctx = "none" THEN Build /\ Log(Op("build", b + 1, TRUE, FALSE)) /\ hasty' \in {TRUE, FALSE, FALSE}
  ELSE IF ctx = "live" /\ hasty THEN
    IF P.builds[b].cancel THEN Cancel /\ Log(Op("cancel", 0, TRUE, FALSE)) /\ hasty' = FALSE
    ELSE hasty' = FALSE /\ UNCHANGED <<vars, hist>>
  ELSE IF Over THEN Return(AllGood(Wanted)) /\ Log(Op("return", 0, TRUE, ctx = "live")) /\ hasty' = FALSE
  ELSE IF ctx = "dead" THEN Dying
  ELSE IF Quiet THEN Ops ELSE Auto
GenSpec == GenInit /\ [][GenNext]_gvars

Emit == (ctx = "none" /\ b = Len(P.builds)) => PrintT("BEH " \o ToJson([tid |-> tid, steps |-> hist]))
=============================================================================
