--------------------------- MODULE FabDriverImpl ---------------------------
(***************************************************************************)
(* How fab keeps its drivers: next to the driver there are a file with the *)
(* hash of the sources it was compiled from, and one with the version of   *)
(* fab that did it.  It may be killed anywhere.  Implements FabDriver.     *)
(*                                                                         *)
(* Mistakes: RemoveFirst = FALSE (the files are not removed before the     *)
(* driver is replaced), HashFirst = TRUE (the hash is written before the   *)
(* driver is in place).                                                    *)
(***************************************************************************)
EXTENDS FabDriver, TLC

CONSTANTS Ids, Versions, Projects, RemoveFirst, HashFirst, MaxOps
VARIABLES bin, hash, ver,    \* the files: contents or None
          pc, req, ran, tried, made, ops

ivars == <<src, last, bin, hash, ver, pc, req, ran, tried, made, ops>>

NoReq == [p |-> 0]
Init ==
  /\ src \in [Projects -> {[n \in {"f"} |-> [kind |-> "go", id |-> i]] : i \in Ids}]
  /\ last = None /\ bin = None /\ hash = None /\ ver = None
  /\ pc = "idle" /\ req = NoReq /\ ran = <<>> /\ tried = FALSE /\ made = FALSE /\ ops = 0

More == ops < MaxOps /\ ops' = ops + 1
Edit ==
  /\ pc = "idle" /\ More
  /\ \E p \in Projects : \E i \in Ids : \E k \in {"go", "broken"} : Put(p, "f", [kind |-> k, id |-> i])
  /\ UNCHANGED <<bin, hash, ver, pc, req, ran, tried, made>>
Lose ==
  /\ pc = "idle" /\ More
  /\ \/ bin' = None /\ UNCHANGED <<hash, ver>>
     \/ hash' = None /\ UNCHANGED <<bin, ver>>
     \/ ver' = None /\ UNCHANGED <<bin, hash>>
  /\ Harm
  /\ UNCHANGED <<pc, req, ran, tried, made>>
Start ==
  /\ pc = "idle" /\ More
  /\ \E p \in Projects : \E v \in Versions : \E force, fails \in BOOLEAN : req' = [p |-> p, v |-> v, force |-> force, fails |-> fails]
  /\ pc' = "load" /\ ran' = <<>> /\ tried' = FALSE /\ made' = FALSE
  /\ UNCHANGED <<src, last, bin, hash, ver>>

Now == [c |-> Content(req.p, FALSE), v |-> req.v]
(* fab ends, by itself or killed *)
End(killed, ok) ==
  /\ Run(req.p, req.v, FALSE, req.force, req.fails, killed, tried, made, ran, ok)
  /\ pc' = "idle" /\ req' = NoReq /\ ran' = <<>> /\ tried' = FALSE /\ made' = FALSE
Go(s) == pc' = s /\ UNCHANGED <<src, last, req, ops>>
Step ==
  \/ /\ pc = "load"
     /\ IF Broken(req.p) THEN Go("failed") /\ UNCHANGED <<bin, hash, ver, ran, tried, made>>
        ELSE IF req.force \/ IsNone(bin) \/ IsNone(ver) \/ ver # [v |-> req.v] \/ IsNone(hash) \/ hash # [h |-> Now.c]
             THEN Go("rmhash") /\ UNCHANGED <<bin, hash, ver, ran, tried, made>>
             ELSE Go("run") /\ UNCHANGED <<bin, hash, ver, ran, tried, made>>
  \/ pc = "rmhash" /\ Go("rmver") /\ hash' = (IF RemoveFirst THEN None ELSE hash) /\ UNCHANGED <<bin, ver, ran, tried, made>>
  \/ pc = "rmver" /\ Go("build") /\ ver' = (IF RemoveFirst THEN None ELSE ver) /\ UNCHANGED <<bin, hash, ran, tried, made>>
  \/ /\ pc = "build" /\ tried' = TRUE
     /\ IF req.fails THEN Go("failed") /\ UNCHANGED <<bin, hash, ver, ran, made>>
        ELSE Go(IF HashFirst THEN "hash" ELSE "move") /\ made' = TRUE /\ UNCHANGED <<bin, hash, ver, ran>>
  \/ pc = "move" /\ Go(IF HashFirst THEN "ver" ELSE "hash") /\ bin' = Now /\ UNCHANGED <<hash, ver, ran, tried, made>>
  \/ pc = "hash" /\ Go(IF HashFirst THEN "move" ELSE "ver") /\ hash' = [h |-> Now.c] /\ UNCHANGED <<bin, ver, ran, tried, made>>
  \/ pc = "ver" /\ Go("run") /\ ver' = [v |-> req.v] /\ UNCHANGED <<bin, hash, ran, tried, made>>
  \/ pc = "run" /\ Go("ran") /\ ran' = <<bin>> /\ UNCHANGED <<bin, hash, ver, tried, made>>
Finish == pc \in {"ran", "failed"} /\ End(FALSE, pc = "ran") /\ UNCHANGED <<bin, hash, ver, ops>>
Crash == pc \notin {"idle"} /\ End(TRUE, FALSE) /\ UNCHANGED <<bin, hash, ver, ops>>

Next == Edit \/ Lose \/ Start \/ Step \/ Finish \/ Crash
Spec == Init /\ [][Next]_ivars

(* Whenever fab is done or could be killed, FabDriver allows what happened. *)
Allowed(killed, ok) == ENABLED Run(req.p, req.v, FALSE, req.force, req.fails, killed, tried, made, ran, ok)
Implements ==
  /\ pc \in {"ran", "failed"} => Allowed(FALSE, pc = "ran")
  /\ pc # "idle" => Allowed(TRUE, FALSE)
=============================================================================
