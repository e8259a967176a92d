------------------------------ MODULE FabClean ------------------------------
(***************************************************************************)
(* What Clean targets do (property C12, part of C11).                      *)
(*                                                                         *)
(* fs maps the paths that exist (sequences of names) to what is there:     *)
(* "dir", "link", or something else for the different contents of files.   *)
(* reg is the set of outputs of the Files targets marked for autocleaning. *)
(* locked is the set of directories that do not permit changes.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLES fs, reg, locked
cvars == <<fs, reg, locked>>

Empty == [x \in {} |-> ""]
Under(d, F) == {p \in DOMAIN F : Len(p) > Len(d) /\ SubSeq(p, 1, Len(d)) = d}
ParentOf(p) == SubSeq(p, 1, Len(p) - 1)
IsTree(F) == \A p \in DOMAIN F : Len(p) = 1 \/ (ParentOf(p) \in DOMAIN F /\ F[ParentOf(p)] = "dir")
HasPlace(p) == Len(p) = 1 \/ (ParentOf(p) \in DOMAIN fs /\ fs[ParentOf(p)] = "dir")

(* The surroundings *)
Put(p, k) == /\ p \notin DOMAIN fs /\ HasPlace(p)
             /\ fs' = [q \in DOMAIN fs \cup {p} |-> IF q = p THEN k ELSE fs[q]]
             /\ UNCHANGED <<reg, locked>>
Del(p) == /\ p \in DOMAIN fs
          /\ fs' = [q \in DOMAIN fs \ ({p} \cup Under(p, fs)) |-> fs[q]]
          /\ locked' = locked \ ({p} \cup Under(p, fs))
          /\ UNCHANGED reg
Lock(d)   == d \in DOMAIN fs /\ fs[d] = "dir" /\ d \notin locked /\ locked' = locked \cup {d} /\ UNCHANGED <<fs, reg>>
Unlock(d) == d \in locked /\ locked' = locked \ {d} /\ UNCHANGED <<fs, reg>>

(* A Files target is created. *)
Declare(outs, auto) == reg' = (IF auto THEN reg \cup outs ELSE reg) /\ UNCHANGED <<fs, locked>>

(* Clean targets: sequences of [files, auto]. *)
Listed(ts) == UNION {Range(ts[i].files) \cup (IF ts[i].auto THEN reg ELSE {}) : i \in 1..Len(ts)}
Stubborn(p) == p \in DOMAIN fs /\ ((fs[p] = "dir" /\ Under(p, fs) # {}) \/ ParentOf(p) \in locked)
Result(ts, dry, ok, F) ==
  /\ DOMAIN F \subseteq DOMAIN fs /\ \A p \in DOMAIN F : F[p] = fs[p]
  /\ IsTree(F)
  /\ DOMAIN fs \ DOMAIN F \subseteq Listed(ts)
  /\ IF dry THEN ok /\ F = fs
     ELSE IF ok THEN Listed(ts) \cap DOMAIN F = {}
     ELSE \E p \in Listed(ts) : Stubborn(p)

(* Several Clean targets run, in whatever order or at the same time.  same: they are still what they were. *)
Clean(ts, dry, ok, same, F) ==
  /\ same /\ Result(ts, dry, ok, F)
  /\ fs' = F /\ locked' = locked \cap DOMAIN F /\ UNCHANGED reg
=============================================================================
