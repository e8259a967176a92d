------------------------------ MODULE FabYaml ------------------------------
(***************************************************************************)
(* What the YAML files of a project mean (properties C14, C24, part of     *)
(* C15), independent of how they are read.                                 *)
(*                                                                         *)
(* A project has files, each with the directory dir it is in (a path, see  *)
(* FabPath), and a document doc: a node                                    *)
(*    [k |-> kind, tag, v |-> value, kids |-> nodes, doc |-> comment]      *)
(* of kind "scalar", "seq", "map" (whose kids alternate between keys and   *)
(* values), or "bad" (not YAML at all).  Scalars have a value (with doc =  *)
(* "bool" or "null" if it is not a string).                                *)
(* gos are targets registered by Go code; top is the top directory; fs are *)
(* the files that exist.                                                   *)
(*                                                                         *)
(* The meaning of a node is a target: a tree of                            *)
(*   leaf (something observable is done; id tells what), all, seq, deps,   *)
(*   arg, files, and name (whatever target has that name).                 *)
(* FabRun tells what running such targets means.                           *)
(***************************************************************************)
EXTENDS FabPath, SequencesExt, FiniteSetsExt
LOCAL INSTANCE Json

None == [k |-> "none", subs |-> <<>>, args |-> <<>>, ins |-> <<>>, outs |-> <<>>, name |-> "", slash |-> FALSE, to |-> <<>>, id |-> ""]
Wrong == [ok |-> FALSE, t |-> None]
Right(t) == [ok |-> TRUE, t |-> t]
Tree(k, subs) == [None EXCEPT !.k = k, !.subs = subs]

NoNode == [k |-> "absent", tag |-> "", v |-> "", kids |-> <<>>, doc |-> ""]
IsNull(n) == n.k = "scalar" /\ n.tag = "" /\ n.v \in {"~", "null"} /\ n.doc = "null"

(***************************************************************************)
(* Lists of strings                                                        *)
(***************************************************************************)
WrongList == [ok |-> FALSE, l |-> <<>>]
Join(lists) == IF \E i \in 1..Len(lists) : ~lists[i].ok THEN WrongList
               ELSE [ok |-> TRUE, l |-> FoldLeft(LAMBDA acc, x : acc \o x.l, <<>>, lists)]

(* F is the sequence of paths of the files and directories that exist, *)
(* in lexical order.                                                   *)
Globbed(F, d, pat) ==
  LET q == Pattern(d, pat)
      hits == SelectSeq(F, LAMBDA p : PathMatches(q, p)) IN
  [i \in 1..Len(hits) |-> IF IsAbsolute(pat) THEN "%B/" \o JoinSegs(hits[i])
                         ELSE IF hits[i] = d THEN "." ELSE Rel(d, hits[i])]

RECURSIVE StrItems(_, _, _), StrTagged(_, _, _)
(* the elements of a list, some of which may be tagged sublists *)
StrItems(F, d, kids) ==
  Join([i \in 1..Len(kids) |->
          IF kids[i].tag # "" THEN StrTagged(F, d, kids[i])
          ELSE IF kids[i].k = "scalar" THEN [ok |-> TRUE, l |-> <<kids[i].v>>]
          ELSE WrongList])
(* Glob is fab's; Rev (the elements in reverse order) and Twice (each    *)
(* element twice) stand for those that users define.                     *)
StrTagged(F, d, n) ==
  IF n.k # "seq" THEN WrongList
  ELSE LET items == StrItems(F, d, n.kids) IN
       IF ~items.ok THEN WrongList
       ELSE CASE n.tag = "Glob"  -> IF \A i \in 1..Len(items.l) : PatternOK(d, items.l[i])
                                   THEN [ok |-> TRUE, l |-> FlattenSeq([i \in 1..Len(items.l) |-> Globbed(F, d, items.l[i])])]
                                   ELSE WrongList
              [] n.tag = "Rev"   -> [ok |-> TRUE, l |-> Reverse(items.l)]
              [] n.tag = "Twice" -> [ok |-> TRUE, l |-> FlattenSeq([i \in 1..Len(items.l) |-> <<items.l[i], items.l[i]>>])]
              [] OTHER -> WrongList
StrList(F, d, n) ==
  IF n.k = "absent" THEN [ok |-> TRUE, l |-> <<>>]
  ELSE IF n.tag # "" THEN StrTagged(F, d, n)
  ELSE IF n.k = "seq" THEN StrItems(F, d, n.kids)
  ELSE WrongList

(***************************************************************************)
(* Targets                                                                 *)
(***************************************************************************)
Keys(n)   == [i \in 1..(Len(n.kids) \div 2) |-> n.kids[2 * i - 1]]
Vals(n)   == [i \in 1..(Len(n.kids) \div 2) |-> n.kids[2 * i]]
(* A mapping of fields: every key is a string, none is repeated. *)
GoodMap(n) == /\ n.k = "map"
              /\ \A i \in 1..Len(Keys(n)) : Keys(n)[i].k = "scalar"
              /\ \A i, j \in 1..Len(Keys(n)) : i # j => Keys(n)[i].v # Keys(n)[j].v
Field(n, f) == IF \E i \in 1..Len(Keys(n)) : Keys(n)[i].v = f
               THEN Vals(n)[CHOOSE i \in 1..Len(Keys(n)) : Keys(n)[i].v = f] ELSE NoNode

StrField(x)  == x.k \in {"absent", "scalar"}
BoolField(x) == x.k = "absent" \/ (x.k = "scalar" /\ (x.doc = "bool" \/ IsNull(x)))

(* The first word of a command in the test programs is "yleaf", the second *)
(* is the identification.  (What other commands do is not known here.)     *)
LeafOf(str) == [None EXCEPT !.k = "leaf", !.id = IF StartsWith(str, "yleaf ") THEN Drop(str, 6) ELSE "?"]
CmdLeaf(cmd, args) == [None EXCEPT !.k = "leaf", !.id = IF cmd = "yleaf" /\ Len(args) = 1 THEN args[1] ELSE "?"]

Paths(d, l) == [i \in 1..Len(l) |-> Denotes(d, l[i])]

(* x: the project's top directory, and the files that exist; *)
(* d: the directory of the YAML file.                        *)
RECURSIVE Target(_, _, _)
Targets(x, d, kids) ==
  LET ts == [i \in 1..Len(kids) |-> Target(x, d, kids[i])] IN
  [ok |-> \A i \in 1..Len(ts) : ts[i].ok, l |-> [i \in 1..Len(ts) |-> ts[i].t]]

(* What a name means: without a slash, the target with that name in the  *)
(* registry; with slashes, a path to a target, whose name is that path   *)
(* seen from the top directory.                                          *)
Named(x, d, s) ==
  IF ~Contains(s, "/") THEN [None EXCEPT !.k = "name", !.name = s]
  ELSE LET p == Denotes(d, s) IN
       [None EXCEPT !.k = "name", !.name = Rel(x.top, p), !.slash = TRUE, !.to = Up(p)]

Deps(x, d, n) ==
  IF n.k = "seq"
  THEN LET ts == Targets(x, d, n.kids) IN
       IF Len(n.kids) = 0 \/ ~ts.ok THEN Wrong ELSE Right(Tree("deps", ts.l))
  ELSE IF GoodMap(n)
  THEN LET pre == Field(n, "Pre")
           ts == Targets(x, d, pre.kids)
           post == Target(x, d, Field(n, "Post"))
       IN IF (pre.k \in {"absent", "seq"} \/ IsNull(pre)) /\ ts.ok /\ post.ok THEN Right(Tree("deps", <<post.t>> \o ts.l)) ELSE Wrong
  ELSE Wrong

Command(x, d, n) ==
  IF ~GoodMap(n) THEN Wrong
  ELSE LET F(f) == Field(n, f)
           args == StrList(x.fs, d, F("Args"))
           list == StrList(x.fs, d, F("Shell"))
           plain == F("Shell").k = "absent" \/ (F("Shell").k = "scalar" /\ F("Shell").tag = "")
       IN IF ~args.ok \/ ~StrList(x.fs, d, F("Env")).ok \/ \E f \in {"Cmd", "Stdin", "Stdout", "Stderr", "Dir"} : ~StrField(F(f)) THEN Wrong
          ELSE IF F("Cmd").k = "scalar" /\ F("Cmd").v # "" /\ ~IsNull(F("Cmd"))
               THEN IF plain THEN Right(CmdLeaf(F("Cmd").v, args.l)) ELSE Wrong
          ELSE IF F("Shell").k = "absent" \/ (plain /\ F("Shell").v = "") THEN Right(Tree("seq", <<>>))
          ELSE IF plain THEN Right(LeafOf(F("Shell").v))
          ELSE IF list.ok THEN Right(Tree("seq", [i \in 1..Len(list.l) |-> LeafOf(list.l[i])]))
          ELSE Wrong

FilesTarget(x, d, n) ==
  IF ~GoodMap(n) THEN Wrong
  ELSE LET t == Target(x, d, Field(n, "Target"))
           ins == StrList(x.fs, d, Field(n, "In"))
           outs == StrList(x.fs, d, Field(n, "Out"))
       IN IF t.ok /\ ins.ok /\ outs.ok /\ BoolField(Field(n, "Autoclean"))
          THEN Right([Tree("files", <<t.t>>) EXCEPT !.ins = Paths(d, ins.l), !.outs = Paths(d, outs.l)]) ELSE Wrong

Clean(x, d, n) ==
  LET files == IF n.k = "seq" THEN StrItems(x.fs, d, n.kids)
               ELSE IF GoodMap(n) /\ BoolField(Field(n, "Autoclean")) THEN StrList(x.fs, d, Field(n, "Files"))
               ELSE WrongList
      \* its effect is a matter of FabClean, except when there are no such files
      none == \A i \in 1..Len(files.l) : \E s \in {"cl1", "cl2"} : EndsWith(files.l[i], s)
  IN IF files.ok THEN Right(IF none THEN Tree("seq", <<>>) ELSE [None EXCEPT !.k = "leaf", !.id = "?"]) ELSE Wrong

Target(x, d, n) ==
  LET ts == Targets(x, d, n.kids) IN
  CASE n.tag = "" -> IF n.k = "scalar" THEN Right(Named(x, d, n.v)) ELSE Wrong
    [] n.tag = "All" -> IF n.k = "seq" /\ ts.ok THEN Right(Tree("all", ts.l)) ELSE Wrong
    [] n.tag = "Seq" -> IF n.k = "seq" /\ ts.ok THEN Right(Tree("seq", ts.l)) ELSE Wrong
    [] n.tag = "Deps" -> Deps(x, d, n)
    [] n.tag = "ArgTarget" ->
         IF n.k # "seq" \/ Len(n.kids) = 0 THEN Wrong
         ELSE LET t == Target(x, d, n.kids[1])
                  args == StrItems(x.fs, d, Tail(n.kids))
              IN IF t.ok /\ args.ok THEN Right([Tree("arg", <<t.t>>) EXCEPT !.args = args.l]) ELSE Wrong
    [] n.tag = "Command" -> Command(x, d, n)
    [] n.tag = "Files" -> FilesTarget(x, d, n)
    [] n.tag = "Clean" -> Clean(x, d, n)
    [] n.tag = "Leaf" -> IF n.k = "scalar" THEN Right([None EXCEPT !.k = "leaf", !.id = n.v]) ELSE Wrong  \* a user-defined one
    [] OTHER -> Wrong

(***************************************************************************)
(* Documents                                                               *)
(***************************************************************************)
GoodName(s) == s \notin {"", ".", ".."} /\ ~Contains(s, "/")

(* Its own name is part of what a file below the top directory must say. *)
GoodDoc(x, d, m) ==
  /\ GoodMap(m)
  /\ \A i \in 1..Len(Keys(m)) :
       IF Keys(m)[i].v = "_dir" THEN Vals(m)[i].k = "scalar" /\ Vals(m)[i].v = Rel(x.top, d)
       ELSE GoodName(Keys(m)[i].v) /\ Target(x, d, Vals(m)[i]).ok
  /\ d # x.top => Field(m, "_dir") # NoNode

Qualified(x, d, name) == Rel(x.top, Append(d, name))

(* The definitions in a (good) document. *)
DefsOf(x, d, m) ==
  LET is == SelectSeq([i \in 1..Len(Keys(m)) |-> i], LAMBDA i : Keys(m)[i].v # "_dir") IN
  [j \in 1..Len(is) |-> [name |-> Qualified(x, d, Keys(m)[is[j]].v), doc |-> Keys(m)[is[j]].doc, t |-> Target(x, d, Vals(m)[is[j]]).t]]

RECURSIVE Slashed(_)   \* the references by path in a target
Slashed(t) == IF t.k = "name" THEN (IF t.slash THEN {<<t.to, t.name>>} ELSE {})
              ELSE UNION {Slashed(t.subs[i]) : i \in 1..Len(t.subs)}

(***************************************************************************)
(* Projects                                                                *)
(***************************************************************************)
X(p) == [top |-> p.top, fs |-> p.fs]
FileIn(p, d)  == CHOOSE f \in ToSet(p.files) : f.dir = d
HasFile(p, d) == \E f \in ToSet(p.files) : f.dir = d
Good(p, d) == HasFile(p, d) /\ GoodDoc(X(p), d, FileIn(p, d).doc)
Defs(p, d) == IF Good(p, d) THEN DefsOf(X(p), d, FileIn(p, d).doc) ELSE <<>>
GoNames(p) == {g.name : g \in ToSet(p.gos)}

RefsOf(p, d) == UNION {Slashed(x.t) : x \in ToSet(Defs(p, d))}
(* The directories whose YAML files must be read because of d's. *)
Needs(p, d) == {r[1] : r \in {q \in RefsOf(p, d) : q[1] # p.top /\ q[2] \notin GoNames(p)}}

RECURSIVE ClosureFrom(_, _)
ClosureFrom(p, S) == LET T == S \cup UNION {Needs(p, d) : d \in S} IN IF T = S THEN S ELSE ClosureFrom(p, T)
Closure(p, d) == ClosureFrom(p, {d})

Registered(p, L) == GoNames(p) \cup UNION {{x.name : x \in ToSet(Defs(p, d))} : d \in L}

(* A file that cannot be read with those it refers to is an error. *)
MustFail(p, d) == \E e \in Closure(p, d) : ~Good(p, e)
(* References to what does not exist are errors when found, or when used. *)
Unresolved(p, d) == \E e \in Closure(p, d) : \E r \in RefsOf(p, e) : r[1] # p.top /\ r[2] \notin Registered(p, Closure(p, d))

(***************************************************************************)
(* The state: which files were read.                                       *)
(***************************************************************************)
VARIABLES pid, loaded, failed
yvars == <<pid, loaded, failed>>

ReadFile(p, d, ok) ==
  /\ ~failed
  /\ IF MustFail(p, d) THEN ~ok ELSE (ok \/ Unresolved(p, d))
  /\ loaded' = IF ok THEN loaded \cup Closure(p, d) ELSE loaded
  /\ failed' = ~ok
  /\ UNCHANGED pid

(* names: what is registered, with the documentation *)
Registry(p) == {[name |-> g.name, doc |-> g.doc] : g \in ToSet(p.gos)}
               \cup UNION {{[name |-> x.name, doc |-> x.doc] : x \in ToSet(Defs(p, d))} : d \in loaded}

(***************************************************************************)
(* The program (see FabRun) consisting of everything loaded.               *)
(***************************************************************************)
RECURSIVE Size(_)
Size(t) == 1 + FoldLeft(LAMBDA n, s : n + Size(s), 0, t.subs)

LoadedDefs(p) == [i \in 1..Len(p.gos) |-> [name |-> p.gos[i].name, doc |-> p.gos[i].doc, t |-> [None EXCEPT !.k = "leaf", !.id = p.gos[i].id]]]
                 \o FlattenSeq([i \in 1..Len(p.files) |-> IF p.files[i].dir \in loaded THEN Defs(p, p.files[i].dir) ELSE <<>>])
(* Every target's nodes follow those it is made of; the last is the target itself. *)
Root(defs, i) == FoldLeft(LAMBDA n, s : n + Size(s.t), 0, SubSeq(defs, 1, i))
RootOf(defs, name) == IF \E i \in 1..Len(defs) : defs[i].name = name
                      THEN Root(defs, CHOOSE i \in 1..Len(defs) : defs[i].name = name) ELSE 0

RunNode == [k |-> "bad", subs |-> <<>>, ref |-> 0, args |-> "-", fail |-> FALSE, prop |-> FALSE, steps |-> <<>>, ins |-> <<>>, outs |-> <<>>,
            flavor |-> "", name |-> ""]
(* base: the number of nodes before *)
RECURSIVE Flat(_, _, _)
Flat(defs, t, base) ==
  LET ends == [i \in 1..Len(t.subs) |-> base + FoldLeft(LAMBDA n, s : n + Size(s), 0, SubSeq(t.subs, 1, i))]   \* the nodes of the subtargets
      below == FlattenSeq([i \in 1..Len(t.subs) |-> Flat(defs, t.subs[i], IF i = 1 THEN base ELSE ends[i - 1])])
      n == CASE t.k = "leaf"  -> [RunNode EXCEPT !.k = "leaf", !.fail = (t.id # "" /\ Char(t.id, Len(t.id)) = "x"), !.name = t.id]
             [] t.k \in {"all", "seq"} -> [RunNode EXCEPT !.k = t.k, !.subs = ends]
             [] t.k = "deps"  -> [RunNode EXCEPT !.k = "deps", !.ref = ends[1], !.subs = Tail(ends)]
             [] t.k = "arg"   -> [RunNode EXCEPT !.k = "arg", !.ref = ends[1], !.args = IF t.args = <<>> THEN "-" ELSE ToJson(t.args)]
             [] t.k = "files" -> [RunNode EXCEPT !.k = "files", !.ref = ends[1], !.ins = t.ins, !.outs = t.outs]
             [] t.k = "name"  -> IF RootOf(defs, t.name) = 0 THEN RunNode ELSE [RunNode EXCEPT !.k = "name", !.ref = RootOf(defs, t.name)]
             [] OTHER -> RunNode
  IN Append(below, n)

RECURSIVE Unknown(_)
Unknown(t) == t.id = "?" \/ \E i \in 1..Len(t.subs) : Unknown(t.subs[i])
Runnable(p) == ~\E x \in ToSet(LoadedDefs(p)) : Unknown(x.t)

(***************************************************************************)
(* What the words of a command line (or of a call of ParseArgs) select:    *)
(* the targets with these names, or the one target with the first name,    *)
(* with the other words as arguments.                                      *)
(***************************************************************************)
WithArgs(words) == Len(words) > 1 /\ StartsWith(words[2], "-")
Named_(words) == IF WithArgs(words) THEN <<words[1]>> ELSE words
UnknownNames(p, words) == {w \in ToSet(Named_(words)) : w \notin {x.name : x \in Registry(p)}}
(* ok: no error; mentioned: by the error *)
Select(p, words, ok, mentioned) ==
  /\ ok = (UnknownNames(p, words) = {})
  /\ ~ok => UnknownNames(p, words) \subseteq mentioned
  /\ UNCHANGED yvars

(* p.calls: sequences of words, each the words of one command line after the other *)
Program(p) ==
  LET defs == LoadedDefs(p)
      base == Root(defs, Len(defs))
      argcalls == SelectSeq([c \in 1..Len(p.calls) |-> c], LAMBDA c : WithArgs(p.calls[c]))
      wrapped(c) == [RunNode EXCEPT !.k = "arg", !.ref = RootOf(defs, p.calls[c][1]), !.args = ToJson(Tail(p.calls[c]))]
      extra(c) == base + Cardinality({d \in ToSet(argcalls) : d <= c})
  IN
  [nodes |-> FlattenSeq([i \in 1..Len(defs) |-> Flat(defs, defs[i].t, IF i = 1 THEN 0 ELSE Root(defs, i - 1))])
             \o [i \in 1..Len(argcalls) |-> IF RootOf(defs, p.calls[argcalls[i]][1]) = 0 THEN RunNode ELSE wrapped(argcalls[i])],
   calls |-> [c \in 1..Len(p.calls) |->
                [client |-> c,
                 targets |-> IF UnknownNames(p, p.calls[c]) # {} THEN <<>>
                             ELSE IF WithArgs(p.calls[c]) THEN <<extra(c)>>
                             ELSE [i \in 1..Len(p.calls[c]) |-> RootOf(defs, p.calls[c][i])]]]]
=============================================================================
