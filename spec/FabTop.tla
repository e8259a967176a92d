------------------------------- MODULE FabTop -------------------------------
(***************************************************************************)
(* Where the top directory of a project is (property C19).                 *)
(*                                                                         *)
(* at maps directories to what they contain:                               *)
(*   fab   does it have a _fab directory?                                  *)
(*   yaml  "no" (no YAML file), "bad" (one that isn't a YAML mapping),     *)
(*         "plain" (one without a _dir declaration), "decl"                *)
(*   decl  the declaration                                                 *)
(* Directories that are not in its domain contain neither.                 *)
(***************************************************************************)
EXTENDS FabPath, SequencesExt

None == <<"none">>      \* an error instead of a directory

Proper(decl) == \A i \in 1..Len(Split(decl)) : Split(decl)[i] \notin {"", ".", ".."}
IsTail(q, p) == Len(q) <= Len(p) /\ SubSeq(p, Len(p) - Len(q) + 1, Len(p)) = q

(* What a declaration may yield in the file in directory d. *)
Declared(d, decl) ==
  IF Proper(decl) THEN (IF IsTail(Split(decl), d) THEN {SubSeq(d, 1, Len(d) - Len(Split(decl)))} ELSE {None})
  ELSE LET q == Follow(<<>>, Split(decl)) IN  \* oddly spelled
       {None} \cup (IF ~StartsWith(decl, "/") /\ IsTail(q, d) THEN {SubSeq(d, 1, Len(d) - Len(q))} ELSE {})

RECURSIVE Tops(_, _)
Tops(at, d) ==
  IF d \in DOMAIN at /\ at[d].fab THEN {d}
  ELSE IF d \in DOMAIN at /\ at[d].yaml = "bad" THEN {None}
  ELSE IF d \in DOMAIN at /\ at[d].yaml = "plain" THEN {d}
  ELSE IF d \in DOMAIN at /\ at[d].yaml = "decl" THEN Declared(d, at[d].decl)
  ELSE IF d = <<>> THEN {None}
  ELSE Tops(at, Up(d))
=============================================================================
