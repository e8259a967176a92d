---------------------------- MODULE FabCleanImpl ----------------------------
(***************************************************************************)
(* The algorithm: remove the listed files one after another, in some       *)
(* order, up to the first that cannot be removed; several Clean targets    *)
(* may do so at the same time.  It implements FabClean.  The histories of  *)
(* operations are executed with the real code.                             *)
(***************************************************************************)
EXTENDS FabClean, TLC, Json, IOUtils

Progs == JsonDeserialize(IOEnv.PROGS)
(* Progs[i]: [paths, kinds (possible ones), init (a kind or nothing), targets (<<[files, auto]>>, of 1-based path numbers), decls (<<[outs, auto]>>), cats, maxops] *)

VARIABLES tid, hist, cat, nops, declared,
          run,     \* what runs: [ts, dry], or no target
          todo,    \* for every target running, the set of paths yet to remove
          status,  \* for every target running: "run", "ok", "fail"
          start    \* [fs, locked] at the beginning of the run
ivars == <<tid, hist, cat, nops, declared, run, todo, status, start>>
vars == <<cvars, ivars>>
P == Progs[tid]
PathAt(i) == P.paths[i]
Target(t) == [files |-> [i \in DOMAIN P.targets[t].files |-> PathAt(P.targets[t].files[i])], auto |-> P.targets[t].auto]
Idle == run.ts = <<>>

Init ==
  /\ tid \in 1..Len(Progs) /\ hist = <<>> /\ cat = "" /\ nops = 0 /\ declared = {}
  /\ fs = [p \in {PathAt(i) : i \in {j \in 1..Len(P.paths) : P.init[j] # ""}} |->
             P.init[CHOOSE j \in 1..Len(P.paths) : PathAt(j) = p]]
  /\ reg = {} /\ locked = {}
  /\ run = [ts |-> <<>>, dry |-> FALSE] /\ todo = <<>> /\ status = <<>> /\ start = [fs |-> Empty, locked |-> {}]

Choose == /\ cat = "" /\ Idle /\ nops < P.maxops
          /\ \E i \in 1..Len(P.cats) : cat' = P.cats[i]
          /\ UNCHANGED <<cvars, tid, hist, nops, declared, run, todo, status, start>>
Log(o) == hist' = Append(hist, o) /\ nops' = nops + 1 /\ cat' = ""
Rest == UNCHANGED <<tid, run, todo, status, start>>
DoPut == cat = "put" /\ Idle /\ \E i \in 1..Len(P.paths) : \E k \in Range(P.kinds[i]) :
            Put(PathAt(i), k) /\ ParentOf(PathAt(i)) \notin locked /\ Log([op |-> "put", i |-> i, k |-> k, ts |-> <<>>]) /\ Rest /\ UNCHANGED declared
DoDel == cat = "del" /\ Idle /\ \E i \in 1..Len(P.paths) :
            Del(PathAt(i)) /\ ({PathAt(i), ParentOf(PathAt(i))} \cup Under(PathAt(i), fs)) \cap locked = {}
            /\ Log([op |-> "del", i |-> i, k |-> "", ts |-> <<>>]) /\ Rest /\ UNCHANGED declared
DoLock == cat = "lock" /\ Idle /\ \E i \in 1..Len(P.paths) :
            (Lock(PathAt(i)) \/ Unlock(PathAt(i))) /\ Log([op |-> "lock", i |-> i, k |-> "", ts |-> <<>>]) /\ Rest /\ UNCHANGED declared
DoDeclare == cat = "declare" /\ Idle /\ \E d \in (1..Len(P.decls)) \ declared :
            Declare({PathAt(P.decls[d].outs[j]) : j \in DOMAIN P.decls[d].outs}, P.decls[d].auto)
            /\ declared' = declared \cup {d} /\ Log([op |-> "declare", i |-> d, k |-> "", ts |-> <<>>]) /\ Rest
(* No operation of the kind chosen is possible. *)
Skip == /\ cat # "" /\ Idle /\ ~ENABLED DoPut /\ ~ENABLED DoDel /\ ~ENABLED DoLock /\ ~ENABLED DoDeclare /\ cat \notin {"clean", "both", "dry"}
        /\ cat' = "clean" /\ UNCHANGED <<cvars, tid, hist, nops, declared, run, todo, status, start>>

Begin == /\ cat \in {"clean", "both", "dry"} /\ Idle
         /\ \E t \in 1..Len(P.targets), u \in 1..Len(P.targets) :
              LET ts == IF cat = "both" THEN <<t, u>> ELSE <<t>>
                  dry == cat = "dry"
                  T == [i \in DOMAIN ts |-> Target(ts[i])] IN
              /\ cat # "both" => u = t
              /\ cat = "both" => u # t \/ Len(P.targets) = 1
              /\ Log([op |-> IF dry THEN "dry" ELSE "clean", i |-> 0, k |-> "", ts |-> ts])
              /\ run' = [ts |-> T, dry |-> dry]
              /\ todo' = [i \in DOMAIN ts |-> IF dry THEN {} ELSE Listed(<<T[i]>>)]
              /\ status' = [i \in DOMAIN ts |-> "run"]
              /\ start' = [fs |-> fs, locked |-> locked]
         /\ UNCHANGED <<cvars, tid, declared>>
Unlink(i, p) ==
  /\ ~Idle /\ status[i] = "run" /\ p \in todo[i]
  /\ todo' = [todo EXCEPT ![i] = @ \ {p}]
  /\ IF p \notin DOMAIN fs THEN UNCHANGED <<fs, locked, status>>
     ELSE IF Stubborn(p) THEN status' = [status EXCEPT ![i] = "fail"] /\ UNCHANGED <<fs, locked>>
     ELSE fs' = [q \in DOMAIN fs \ {p} |-> fs[q]] /\ locked' = locked \ {p} /\ UNCHANGED status
  /\ UNCHANGED <<reg, tid, hist, cat, nops, declared, run, start>>
Finish(i) == /\ ~Idle /\ status[i] = "run" /\ todo[i] = {} /\ status' = [status EXCEPT ![i] = "ok"]
             /\ UNCHANGED <<cvars, tid, hist, cat, nops, declared, run, todo, start>>
AllDone == ~Idle /\ \A i \in DOMAIN status : status[i] # "run"
End == /\ AllDone /\ run' = [ts |-> <<>>, dry |-> FALSE]
       /\ UNCHANGED <<cvars, tid, hist, cat, nops, declared, todo, status, start>>
Next == Choose \/ DoPut \/ DoDel \/ DoLock \/ DoDeclare \/ Skip \/ Begin \/ End
        \/ \E i \in DOMAIN status : Finish(i) \/ \E p \in todo[i] : Unlink(i, p)
Spec == Init /\ [][Next]_vars

Allowed == AllDone =>
  LET ok == \A i \in DOMAIN status : status[i] = "ok"
      Old == INSTANCE FabClean WITH fs <- start.fs, locked <- start.locked
  IN Old!Result(run.ts, run.dry, ok, fs)
Tree == IsTree(fs)
Emit == (nops = P.maxops /\ cat = "" /\ Idle) => PrintT("BEH " \o ToJson([tid |-> tid, steps |-> hist]))
View == <<cvars, tid, cat, nops, declared, run, todo, status, start>>
=============================================================================
