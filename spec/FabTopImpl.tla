----------------------------- MODULE FabTopImpl -----------------------------
(***************************************************************************)
(* TopDir as implemented: two loops that strip one element after another,  *)
(* from the directory and from the declaration.  It finds what FabTop says,*)
(* for all small projects.                                                 *)
(***************************************************************************)
EXTENDS FabTop, TLC

CONSTANTS Depth, DeclDepth, Segs,
  CleanFirst  \* is the declaration cleaned first?  (Once it wasn't, which is wrong.)
VARIABLES at, start, dir, decl, phase, result

vars == <<at, start, dir, decl, phase, result>>

Dirs(n) == UNION {[1..k -> {"a", "b"}] : k \in 0..n}
Decls == {JoinSegs(s) : s \in UNION {[1..k -> Segs] : k \in 1..DeclDepth}}
Level == {[fab |-> TRUE, yaml |-> "no", decl |-> ""], [fab |-> FALSE, yaml |-> "bad", decl |-> ""], [fab |-> FALSE, yaml |-> "plain", decl |-> ""],
          [fab |-> FALSE, yaml |-> "no", decl |-> ""]} \cup {[fab |-> FALSE, yaml |-> "decl", decl |-> s] : s \in Decls}

Init ==
  /\ start \in Dirs(Depth)
  /\ at \in [{SubSeq(start, 1, k) : k \in 0..Len(start)} -> Level]
  /\ dir = start /\ decl = <<>> /\ phase = "up" /\ result = <<>>

(* filepath.Base and filepath.Dir of a relative name given by its segments; Dir cleans. *)
Clean(segs) ==
  LET RECURSIVE C(_, _)
      C(done, rest) ==
        IF rest = <<>> THEN done
        ELSE LET s == Head(rest) IN
             C(IF s \in {"", "."} THEN done
               ELSE IF s = ".." /\ done # <<>> /\ Last(done) # ".." THEN Front(done)
               ELSE Append(done, s), Tail(rest))
  IN C(<<>>, segs)
RECURSIVE Base(_)  \* (It disregards slashes at the end, which Dir doesn't.)
Base(segs) == IF segs = <<>> THEN "." ELSE IF Last(segs) = "" THEN Base(Front(segs)) ELSE Last(segs)
DirOf(segs) == IF segs = <<>> THEN <<>> ELSE Clean(Front(segs))

Finish(r) == phase' = "done" /\ result' = r /\ UNCHANGED <<at, start, dir, decl>>
Next ==
  \/ /\ phase = "up"
     /\ LET c == at[dir] IN
        IF c.fab THEN Finish(dir)
        ELSE IF c.yaml = "bad" THEN Finish(None)
        ELSE IF c.yaml = "plain" THEN Finish(dir)
        ELSE IF c.yaml = "decl" /\ StartsWith(c.decl, "/") THEN Finish(None)
        ELSE IF c.yaml = "decl" THEN phase' = "strip" /\ decl' = (IF CleanFirst THEN Clean(Split(c.decl)) ELSE Split(c.decl)) /\ UNCHANGED <<at, start, dir, result>>
        ELSE IF dir = <<>> THEN Finish(None)
        ELSE dir' = Up(dir) /\ UNCHANGED <<at, start, decl, phase, result>>
  \/ /\ phase = "strip"
     \* (The root of the model is no real root, but what is above it is called otherwise than everything in it.)
     /\ IF dir = <<>> \/ Base(decl) # Last(dir) THEN Finish(None)
        ELSE IF DirOf(decl) = <<>> THEN Finish(Up(dir))
        ELSE dir' = Up(dir) /\ decl' = DirOf(decl) /\ UNCHANGED <<at, start, phase, result>>

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Right == phase = "done" => result \in Tops(at, start)
Ends == <>(phase = "done")
(* Whatever is found encloses the directory where the search began. *)
Encloses == phase = "done" /\ result # None => IsPrefix(result, start)
=============================================================================
