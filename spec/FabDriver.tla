----------------------------- MODULE FabDriver -----------------------------
(***************************************************************************)
(* Which driver fab runs, and when it compiles one (property C18).         *)
(*                                                                         *)
(* src maps projects to the files of their _fab packages (all projects     *)
(* have packages of the same name, and so share a driver), from names to   *)
(*   [kind, id]                                                            *)
(* Kinds: "go", "tag" (part of the package only with a certain build tag), *)
(* "broken" (does not compile), "other" (not part of the package: tests,   *)
(* excluded files, other files).                                           *)
(* last is what the last successful compilation compiled:                  *)
(*   [c, v, sure]  (the contents, the version of fab, and FALSE after      *)
(*   something went wrong since), or None                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES src, last
drvars == <<src, last>>

None == [none |-> TRUE]
IsNone(x) == "none" \in DOMAIN x
Part(kind, tags) == kind \in {"go", "broken"} \/ (kind = "tag" /\ tags)
Content(p, tags) == {<<n, src[p][n].id>> : n \in {m \in DOMAIN src[p] : Part(src[p][m].kind, tags)}}
Broken(p) == \E n \in DOMAIN src[p] : src[p][n].kind = "broken"
Empty(p, tags) == Content(p, tags) = {}

Put(p, n, c) == src' = [src EXCEPT ![p] = [m \in DOMAIN @ \cup {n} |-> IF m = n THEN c ELSE @[m]]] /\ UNCHANGED last
Del(p, n) == src' = [src EXCEPT ![p] = [m \in DOMAIN @ \ {n} |-> @[m]]] /\ UNCHANGED last
Unsure(x) == IF IsNone(x) THEN x ELSE [x EXCEPT !.sure = FALSE]
(* Something happened to the files in which fab keeps drivers. *)
Harm == last' = Unsure(last) /\ UNCHANGED src

(* fab is run.  How: version v, tags, force, fails (compiling a driver fails), killed (while it ran). *)
(* What happened: attempted, compiled (a compilation began, succeeded),      *)
(* ran (the contents and versions of the drivers run), ok.                   *)
Run(p, v, tags, force, fails, killed, attempted, compiled, ran, ok) ==
  LET now == [c |-> Content(p, tags), v |-> v]
      same == ~IsNone(last) /\ last.c = now.c /\ last.v = now.v
      must == force \/ ~same
      may == IF must THEN TRUE ELSE ~last.sure
      usable == ~Broken(p) /\ ~Empty(p, tags)
  IN /\ ~usable => ~attempted /\ ran = <<>> /\ ~ok
     /\ \A i \in 1..Len(ran) : ran[i] = now
     /\ attempted => may
     /\ compiled => attempted
     /\ Len(ran) <= 1
     /\ ran # <<>> => (compiled \/ ~must)
     /\ ~killed =>
          /\ compiled = (attempted /\ ~fails)
          /\ usable => /\ must => attempted
                       /\ Len(ran) = (IF attempted /\ fails THEN 0 ELSE 1)
          /\ ok = (ran # <<>>)
     /\ last' = (IF compiled THEN [c |-> now.c, v |-> now.v, sure |-> ~killed]
                 ELSE IF attempted \/ killed THEN Unsure(last)
                 ELSE last)
     /\ UNCHANGED src
=============================================================================
