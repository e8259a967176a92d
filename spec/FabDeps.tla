------------------------------ MODULE FabDeps ------------------------------
(***************************************************************************)
(* Dependency lists of protocol-buffer files and of Go packages, and when  *)
(* targets made from them are built (properties C20, C21, part of C15).    *)
(***************************************************************************)
EXTENDS FabPath, SequencesExt, FiniteSetsExt

(***************************************************************************)
(* Protocol buffers.  fs maps the paths of the files that exist to their   *)
(* contents: [imports |-> <<name, ...>>, v |-> version].                   *)
(***************************************************************************)
(* The file that an import denotes: that in the first include directory that has it. *)
Found(fs, incs, name) == SelectSeq([i \in 1..Len(incs) |-> Follow(incs[i], Split(name))], LAMBDA p : p \in DOMAIN fs)
Imported(fs, incs, p) == UNION {LET f == Found(fs, incs, n) IN IF f = <<>> THEN {} ELSE {f[1]} : n \in ToSet(fs[p].imports)}
RECURSIVE ProtoFrom(_, _, _)
ProtoFrom(fs, incs, S) == LET T == S \cup UNION {Imported(fs, incs, p) : p \in S} IN IF T = S THEN S ELSE ProtoFrom(fs, incs, T)
ProtoDeps(fs, incs, file) == ProtoFrom(fs, incs, {file})

(***************************************************************************)
(* Go packages.  A package is a directory in the module (a path) with      *)
(* files, whose contents are                                               *)
(*  [kind, imports: of other packages of the module, embeds: paths of      *)
(*   files, also: paths that match its embed patterns otherwise, v]        *)
(* Kinds: "go" (source), "test" (of the package or of its external test    *)
(* package), "other" (assembler and headers), "skip" (not used in this     *)
(* configuration), "data" (anything else).                                 *)
(***************************************************************************)
FilesIn(fs, d, kinds) == {p \in DOMAIN fs : Up(p) = d /\ fs[p].kind \in kinds}
IsPackage(fs, d) == FilesIn(fs, d, {"go"}) # {}
Imports(fs, d, kinds) == UNION {ToSet(fs[p].imports) : p \in FilesIn(fs, d, kinds)}
RECURSIVE GoFrom(_, _)
GoFrom(fs, S) == LET T == S \cup UNION {Imports(fs, d, {"go"}) : d \in S} IN IF T = S THEN S ELSE GoFrom(fs, T)

(* Directories that ./... leaves out. *)
Hidden(root, d) == \E i \in (Len(root) + 1)..Len(d) : d[i] = "testdata" \/ Char(d[i], 1) \in {"_", "."}
Roots(fs, root, recursive) ==
  IF recursive THEN {d \in {Up(p) : p \in DOMAIN fs} : Len(d) >= Len(root) /\ SubSeq(d, 1, Len(root)) = root /\ ~Hidden(root, d) /\ IsPackage(fs, d)}
  ELSE {root}
Built(fs, roots, tests) == GoFrom(fs, roots \cup (IF tests THEN UNION {Imports(fs, d, {"test"}) : d \in roots} ELSE {}))
SourcesOf(fs, roots, tests) ==
  UNION {FilesIn(fs, d, {"go", "other"}) : d \in Built(fs, roots, tests)} \cup IF tests THEN UNION {FilesIn(fs, d, {"test"}) : d \in roots} ELSE {}
GoDeps(fs, root, recursive, tests) ==
  LET src == SourcesOf(fs, Roots(fs, root, recursive), tests) IN src \cup UNION {ToSet(fs[p].embeds) : p \in src}
(* What may be listed too. *)
GoAlso(fs, root, recursive, tests) == UNION {ToSet(fs[p].also) : p \in SourcesOf(fs, Roots(fs, root, recursive), tests)}

(* All files with a path in S or below one. *)
Below(fs, S) == {p \in DOMAIN fs : \E s \in S : Len(p) >= Len(s) /\ SubSeq(p, 1, Len(s)) = s}

(***************************************************************************)
(* Targets made from dependency lists: something runs that makes the files *)
(* out, unless it ran with success when everything was as now.             *)
(***************************************************************************)
VARIABLES pid, fs, built
dvars == <<pid, fs, built>>

Absent == [absent |-> TRUE]
(* what a target's state of being up to date depends on *)
Snapshot(f, t, deps, outs) == <<t, {<<p, IF p \in DOMAIN f THEN f[p] ELSE Absent>> : p \in deps \cup outs}>>

Put(p, c) == fs' = [q \in DOMAIN fs \cup {p} |-> IF q = p THEN c ELSE fs[q]] /\ UNCHANGED <<pid, built>>
Del(p) == fs' = [q \in DOMAIN fs \ {p} |-> fs[q]] /\ UNCHANGED <<pid, built>>

(* A target may depend on more than it has to: deps is what it must depend on, wide what it may. *)
(* Target t is requested.  made: what the files in outs contain afterwards if it runs with success; *)
(* fails: it fails if it runs.                                                                     *)
Build(t, deps, wide, outs, made, dry, force, fails, ran, ok) ==
  LET needed == force \/ Snapshot(fs, t, deps, outs) \notin built
      allowed == force \/ Snapshot(fs, t, wide, outs) \notin built
  IN
  IF dry THEN ~ran /\ ok /\ UNCHANGED dvars
  ELSE /\ (needed => ran) /\ (ran => allowed)
       /\ ok = ~(ran /\ fails)
       /\ fs' = (IF ran /\ ok THEN [q \in DOMAIN fs \cup outs |-> IF q \in outs THEN made ELSE fs[q]] ELSE fs)
       /\ built' = (IF ran /\ ok THEN built \cup {Snapshot(fs', t, deps, outs), Snapshot(fs', t, wide, outs)} ELSE built)
       /\ UNCHANGED pid
=============================================================================
