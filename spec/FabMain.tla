------------------------------ MODULE FabMain ------------------------------
(***************************************************************************)
(* What an invocation of the fab command does (properties C23, C11),       *)
(* whether the project has a driver or not.                                *)
(*                                                                         *)
(* A project proj has targets, in Go or YAML (go: TRUE, FALSE):            *)
(*   [name, id, kind, go, subs |-> <<ids>>, in, out |-> files, fail,       *)
(*    where, doc]                                                          *)
(* (where: the directory it works in, below the top directory).            *)
(* kinds: "cmd" (a command that may fail), "out" (one that writes to       *)
(* fab's standard output and error), "verb" (one that writes to fab's      *)
(* output in verbose mode), "stdin" (one that reads fab's standard input), *)
(* "probe" (a Go function that looks at the modes), "args" (one that looks *)
(* at its arguments), "files" (a Files target, whose command makes out     *)
(* from in), "all", "seq" (of other targets).                              *)
(*                                                                         *)
(* fs are the contents of files ("" if missing); dbs what the hash         *)
(* databases in different directories know; hasgo, hasyaml, broken: are    *)
(* there targets in Go, in YAML, and are the YAML files malformed?         *)
(***************************************************************************)
EXTENDS FabPath, FiniteSets, SequencesExt

VARIABLES proj, fs, dbs, used, hasgo, hasyaml, broken
mvars == <<proj, fs, dbs, used, hasgo, hasyaml, broken>>

Here == {t \in ToSet(proj.targets) : IF t.go THEN hasgo ELSE hasyaml}
Named(w) == CHOOSE t \in Here : t.name = w
T(id) == CHOOSE t \in Here : t.id = id
Makers(f) == {t \in Here : t.kind = "files" /\ t.out = f}

RECURSIVE Succeeds(_), FirstFailing(_, _)
Succeeds(t) == CASE t.kind \in {"all", "seq"} -> \A i \in 1..Len(t.subs) : Succeeds(T(t.subs[i]))
                 [] OTHER -> ~t.fail
(* how many of the targets of a sequence are run *)
FirstFailing(subs, i) == IF i > Len(subs) THEN Len(subs) ELSE IF ~Succeeds(T(subs[i])) THEN i ELSE FirstFailing(subs, i + 1)

RECURSIVE Reached(_, _)   \* everything that running t demands
Reached(t, dry) ==
  {t} \cup (CASE t.kind = "all" -> UNION {Reached(T(t.subs[i]), dry) : i \in 1..Len(t.subs)}
              [] t.kind = "seq" -> UNION {Reached(T(t.subs[i]), dry) : i \in 1..(IF dry THEN Len(t.subs) ELSE FirstFailing(t.subs, 1))}
              [] t.kind = "files" -> UNION {Reached(m, dry) : m \in Makers(t.in)}
              [] OTHER -> {})

(* The contents of a file once the targets in R have run. *)
RECURSIVE Content(_, _, _, _), Stale(_, _, _, _)
Stale(t, R, db, force) == force \/ [id |-> t.id, in |-> Content(t.in, R, db, force), out |-> fs[t.out]] \notin db
Content(f, R, db, force) ==
  IF \E t \in R : t.kind = "files" /\ t.out = f
  THEN LET t == CHOOSE t \in R : t.kind = "files" /\ t.out = f IN
       IF Stale(t, R, db, force) THEN t.id \o "(" \o Content(t.in, R, db, force) \o ")" ELSE fs[f]
  ELSE fs[f]

WithArgs(words) == Len(words) > 1 /\ StartsWith(words[2], "-")
Wanted(words) == IF WithArgs(words) THEN {words[1]} ELSE ToSet(words)
Known(words) == \A w \in Wanted(words) : \E t \in Here : t.name = w

(* fab is run with flags (verbose v, force f, dry n, list l, something    *)
(* unknown bad), the directory db, and words, and given the input.        *)
(* Observed: ok (the exit status), ran (what targets noted, as often as   *)
(* they did), out, err, verb (the targets whose output arrived), listed,  *)
(* files (the contents of all files now), found (the directories where    *)
(* there are databases now), extra (other files that appeared)            *)
Note(t, fl, words, input) ==
  CASE t.kind = "probe" -> <<t.id, t.where, IF fl.v THEN "v" ELSE "", IF fl.f THEN "f" ELSE "", IF fl.n THEN "n" ELSE "">>
    [] t.kind = "args"  -> <<t.id, t.where>> \o (IF WithArgs(words) THEN Tail(words) ELSE <<>>)
    [] t.kind = "stdin" -> <<t.id, t.where, input>>
    [] OTHER -> <<t.id, t.where>>

Function(t) == t.kind \in {"probe", "args"} \/ (t.kind = "stdin" /\ t.go)   \* Go functions decide for themselves what to do in a dry run
Expected(fl, dir, words) ==
  IF fl.bad \/ broken THEN [ok |-> FALSE, ran |-> {}, R |-> {}]
  ELSE IF fl.l \/ words = <<>> THEN [ok |-> TRUE, ran |-> {}, R |-> {}]
  ELSE IF ~Known(words) THEN [ok |-> FALSE, ran |-> {}, R |-> {}]
  ELSE LET R == UNION {Reached(Named(w), fl.n) : w \in Wanted(words)}
           runs(t) == CASE t.kind \in {"all", "seq"} -> FALSE
                        [] Function(t) -> TRUE
                        [] fl.n -> FALSE
                        [] t.kind = "files" -> Stale(t, R, dbs[dir], fl.f)
                        [] OTHER -> TRUE
       IN [ok |-> fl.n \/ \A w \in Wanted(words) : Succeeds(Named(w)),
           ran |-> {t \in R : runs(t)}, R |-> IF fl.n THEN {} ELSE R]

Of(S, kind) == {t.id : t \in {x \in S : x.kind = kind}}
Registry == {[name |-> t.name, doc |-> t.doc] : t \in Here}
Invoke(fl, dir, words, input, ok, ran, out, err, verb, listed, files, found, extra) ==
  LET x == Expected(fl, dir, words)
      made == {t \in x.ran : t.kind = "files"}
  IN /\ ok = x.ok
     /\ ToSet(ran) = {Note(t, fl, words, input) : t \in x.ran}
     /\ Len(ran) = Cardinality(x.ran)
     /\ out = Of(x.ran, "out") /\ err = Of(x.ran, "out")
     /\ verb = IF fl.v THEN Of(x.ran, "verb") ELSE {}
     /\ (fl.l /\ x.ok) => listed = Registry
     /\ fs' = [f \in DOMAIN fs |-> Content(f, x.R, dbs[dir], fl.f)]
     /\ files = fs'
     /\ dbs' = [dbs EXCEPT ![dir] = @ \cup {[id |-> t.id, in |-> fs'[t.in], out |-> fs'[t.out]] : t \in made}]
     /\ used' = used \cup {dir}
     /\ found \subseteq used'
     /\ made # {} => dir \in found
     /\ extra = {}
     /\ UNCHANGED <<proj, hasgo, hasyaml, broken>>

Edit(f, text) == fs' = [fs EXCEPT ![f] = text] /\ UNCHANGED <<proj, dbs, used, hasgo, hasyaml, broken>>
Toggle(go, yaml, bad) == hasgo' = go /\ hasyaml' = yaml /\ broken' = bad /\ UNCHANGED <<proj, fs, dbs, used>>
=============================================================================
