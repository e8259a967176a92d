---------------------------- MODULE FabFilesImpl ----------------------------
(***************************************************************************)
(* How Files targets are built: run the producers of the inputs; look the  *)
(* hash of (rule, inputs, outputs) up in the database; run the subtarget   *)
(* if it is not there; then add the hash of the new state.  Together with  *)
(* users who edit, restore, swap, delete and rename files, change rules,   *)
(* and start builds in different modes, some of which fail or crash.       *)
(* It refines FabFiles.  Its behaviours are replayed on the real code.     *)
(*                                                                         *)
(* A project: [nodes: sequence of [inss, outs, writes, sub, rules],        *)
(*   paths, k (contents are 1..k), rootss, cats, maxops]                   *)
(***************************************************************************)
EXTENDS FabFiles, TLC, Json

VARIABLES
  cm,          \* contents of the paths of the project, 0: none
  rix, iix,    \* which rule and which list of inputs each node has
  saves,       \* saved contents
  cat, nops,   \* what kind of operation comes next; how many so far
  ctl,         \* the current build: [fail, crash, when, w]
  req, ph, out,\* nodes requested; their progress; their outcomes
  db,          \* the hash database
  plan, hist
ivars == <<cm, rix, iix, saves, cat, nops, ctl, req, ph, out, db, plan, hist>>
vars == <<cvars, ivars>>

J  == Progs[tid]
NP == Len(J.paths)
XN == 1..Len(J.nodes)

Locked == 9      \* the content of an unreadable file
Tree(c) == LET F == {i \in 1..NP : c[i] > 0} IN
  {<<J.paths[i], IF c[i] = Locked THEN "unreadable" ELSE ToString(c[i])>> : i \in F}
  \cup UNION {{<<SubSeq(J.paths[i], 1, n), "dir">> : n \in 1..(Len(J.paths[i]) - 1)} : i \in F}

Def == [x \in XN |-> [ins |-> J.nodes[x].inss[iix[x]], outs |-> J.nodes[x].outs,
                      rule |-> J.nodes[x].rules[rix[x]], sub |-> J.nodes[x].sub]]

NoCtl == [fail |-> 0, crash |-> 0, when |-> "", w |-> 0]

Init ==
  /\ tid \in 1..Len(Progs)
  /\ def = <<>> /\ run = NoRun /\ st = <<>> /\ rec = {} /\ seen = {}
  /\ cm = [i \in 1..Len(Progs[tid].paths) |-> Progs[tid].init[i]]
  /\ fs = Tree(cm)
  /\ rix = [x \in 1..Len(Progs[tid].nodes) |-> 1]
  /\ iix = [x \in 1..Len(Progs[tid].nodes) |-> 1]
  /\ saves = <<>> /\ cat = "" /\ nops = 0 /\ ctl = NoCtl
  /\ req = {} /\ ph = <<>> /\ out = <<>> /\ db = {} /\ plan = <<>> /\ hist = <<>>

Cats == Range(J.cats)

(* Choosing what kind of thing to do next.  (Elements of cats are weighted by repetition.) *)
Choose ==
  /\ ~run.on /\ cat = "" /\ nops < J.maxops
  /\ \E i \in 1..Len(J.cats) : cat' = J.cats[i]
  /\ UNCHANGED <<cvars, cm, rix, iix, saves, nops, ctl, req, ph, out, db, plan, hist>>

Op(h) == /\ cat' = "" /\ nops' = nops + 1 /\ hist' = Append(hist, h)

Edit(c2, h) ==
  /\ cm' = c2 /\ SetFs(Tree(c2)) /\ Op(h)
  /\ UNCHANGED <<rix, iix, saves, ctl, req, ph, out, db, plan>>

Put(p, v)  == cat = "put" /\ cm[p] # v /\ Edit([cm EXCEPT ![p] = v], [op |-> "put", p |-> p, v |-> v])
Lock(p)    == cat = "lock" /\ cm[p] \notin {0, Locked} /\ Edit([cm EXCEPT ![p] = Locked], [op |-> "put", p |-> p, v |-> Locked])
Del(p)     == cat = "del" /\ cm[p] > 0 /\ Edit([cm EXCEPT ![p] = 0], [op |-> "del", p |-> p])
Swap(p, q) == cat = "swap" /\ p < q /\ cm[p] > 0 /\ cm[q] > 0 /\ cm[p] # cm[q]
              /\ Edit([cm EXCEPT ![p] = cm[q], ![q] = cm[p]], [op |-> "swap", p |-> p, q |-> q])
Mv(p, q)   == cat = "mv" /\ cm[p] > 0 /\ cm[q] = 0
              /\ Edit([cm EXCEPT ![p] = 0, ![q] = cm[p]], [op |-> "mv", p |-> p, q |-> q])
Restore(k) == cat = "restore" /\ saves[k] # cm /\ Edit(saves[k], [op |-> "set", c |-> saves[k]])
Save == /\ cat = "save" /\ ~run.on /\ Len(saves) < 3 /\ cm \notin Range(saves)
        /\ saves' = Append(saves, cm) /\ cat' = ""
        /\ UNCHANGED <<cvars, cm, rix, iix, nops, ctl, req, ph, out, db, plan, hist>>
Rule(x, i) == /\ cat = "rule" /\ ~run.on /\ rix[x] # i
              /\ rix' = [rix EXCEPT ![x] = i] /\ Op([op |-> "rule", x |-> x, v |-> i])
              /\ UNCHANGED <<cvars, cm, iix, saves, ctl, req, ph, out, db, plan>>
Ins(x, i)  == /\ cat = "ins" /\ ~run.on /\ iix[x] # i
              /\ iix' = [iix EXCEPT ![x] = i] /\ Op([op |-> "ins", x |-> x, v |-> i])
              /\ UNCHANGED <<cvars, cm, rix, saves, ctl, req, ph, out, db, plan>>
(* Things that should make no difference: modification times, order and repetition of names, naming. *)
Fuzz == /\ cat = "fuzz" /\ ~run.on /\ \E w \in {"touch", "respell", "byname"} : Op([op |-> w])
        /\ UNCHANGED <<cvars, cm, rix, iix, saves, ctl, req, ph, out, db, plan>>
Skip == /\ cat \notin {"", "build", "mode", "fail", "crash"} /\ ~run.on /\ cat' = ""
        /\ UNCHANGED <<cvars, cm, rix, iix, saves, nops, ctl, req, ph, out, db, plan, hist>>

Modes == CASE cat \in {"build", "fail", "crash"} -> {[f |-> FALSE, d |-> FALSE, b |-> "ok"]}
           [] cat = "mode" -> {[f |-> TRUE, d |-> FALSE, b |-> "ok"], [f |-> FALSE, d |-> TRUE, b |-> "ok"],
                               [f |-> TRUE, d |-> TRUE, b |-> "ok"],
                               [f |-> FALSE, d |-> FALSE, b |-> "none"], [f |-> FALSE, d |-> FALSE, b |-> "haserr"],
                               [f |-> FALSE, d |-> FALSE, b |-> "adderr"], [f |-> TRUE, d |-> FALSE, b |-> "adderr"]}
           [] OTHER -> {}
Ctls == {[fail |-> f, crash |-> c, when |-> h, w |-> w] :
           f \in (IF cat = "fail" THEN XN ELSE {0}),
           c \in (IF cat = "crash" THEN XN ELSE {0}),
           h \in (IF cat = "crash" THEN {"early", "late"} ELSE {""}),
           w \in Range(J.ws)}

Begin(m, c, R) ==
  /\ ~run.on
  /\ StartRun(Def, [on |-> TRUE, force |-> m.f, dry |-> m.d, db |-> m.b, roots |-> R])
  /\ ctl' = c
  /\ req' = R
  /\ ph' = [x \in XN |-> "no"] /\ out' = [x \in XN |-> ""]
  /\ plan' = [x \in XN |-> 0 - 1]
  /\ UNCHANGED <<cm, rix, iix, saves, cat, nops, db, hist>>

Done(x, o) == ph' = [ph EXCEPT ![x] = "done"] /\ out' = [out EXCEPT ![x] = o]
Keep == UNCHANGED <<cvars, cm, rix, iix, saves, cat, nops, ctl, plan, hist>>

StartNode(x) == /\ run.on /\ x \in req /\ ph[x] = "no"
                /\ ph' = [ph EXCEPT ![x] = "pre"] /\ req' = req \cup Prereqs(x)
                /\ UNCHANGED <<out, db>> /\ Keep
PreDone(x) == /\ run.on /\ ph[x] = "pre" /\ \A y \in Prereqs(x) : ph[y] = "done"
              /\ IF \E y \in Prereqs(x) : out[y] = "fail" THEN Done(x, "fail")
                 ELSE ph' = [ph EXCEPT ![x] = "check"] /\ UNCHANGED out
              /\ UNCHANGED <<req, db>> /\ Keep
Check(x) == /\ run.on /\ ph[x] = "check"
            /\ IF Consults /\ (run.db = "haserr" \/ ~Readable(x)) THEN Done(x, "fail") /\ UNCHANGED req
               ELSE IF Consults /\ Strict(x) \in db THEN Done(x, "ok") /\ UNCHANGED req
               ELSE /\ ph' = [ph EXCEPT ![x] = "sub"] /\ UNCHANGED out
                    /\ req' = IF def[x].sub > 0 THEN req \cup {def[x].sub} ELSE req
            /\ UNCHANGED db /\ Keep

EnterNode(x) == /\ run.on /\ ph[x] = "sub" /\ def[x].sub = 0 /\ st[x] = "idle"
                /\ EnterEff(x)
                /\ UNCHANGED ivars

RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE j \in S : TRUE IN cm[i] + Sum(S \ {i})
InIdx(x) == {i \in 1..NP : \E p \in Range(def[x].ins) : Prefix(p, J.paths[i])}
Val(x) == CASE ctl.w = 0 -> 1 + ((Sum(InIdx(x)) + rix[x]) % J.k)
            [] ctl.w = 5 -> 0             \* deletes its outputs
            [] OTHER -> ctl.w
Written(x) == IF run.dry \/ ctl.w = 4 THEN cm
              ELSE [i \in 1..NP |-> IF i \in Range(J.nodes[x].writes) THEN Val(x) ELSE cm[i]]

ExitNode(x) ==
  /\ run.on /\ st[x] = "run" /\ ~(ctl.crash = x /\ ~run.dry)
  /\ cm' = Written(x)
  /\ ExitEff(x, ctl.fail # x \/ run.dry, Tree(Written(x)))
  /\ plan' = [plan EXCEPT ![x] = IF ctl.w = 4 THEN 0 - 1 ELSE Val(x)]
  /\ UNCHANGED <<rix, iix, saves, cat, nops, ctl, req, ph, out, db, hist>>

(* the subtarget is done *)
SubDone(x) ==
  /\ run.on /\ ph[x] = "sub"
  /\ LET y == def[x].sub
         o == IF y = 0 THEN st[x] ELSE out[y] IN
     /\ o \in {"ok", "fail"}
     /\ IF o = "fail" THEN Done(x, "fail") /\ UNCHANGED db
        ELSE IF ~UsesDB THEN Done(x, "ok") /\ UNCHANGED db
        ELSE IF run.db = "adderr" \/ ~Readable(x) THEN Done(x, "fail") /\ UNCHANGED db
        ELSE Done(x, "ok") /\ db' = db \cup {Strict(x)}
  /\ UNCHANGED req /\ Keep

Log == [op |-> "run", force |-> run.force, dry |-> run.dry, db |-> run.db, roots |-> run.roots,
        fail |-> ctl.fail, crash |-> ctl.crash, when |-> ctl.when, plan |-> plan]

EndRun ==
  /\ run.on /\ \A r \in run.roots : ph[r] = "done"
  /\ EndEff
  /\ Op(Log)
  /\ UNCHANGED <<cm, rix, iix, saves, ctl, req, ph, out, db, plan>>

CrashRun ==
  /\ run.on /\ ctl.crash > 0 /\ st[ctl.crash] = "run" /\ ~run.dry
  /\ LET c2 == IF ctl.when = "late" THEN Written(ctl.crash) ELSE cm IN
     /\ cm' = c2
     /\ CrashEff(Tree(c2))
     /\ Op([Log EXCEPT !.plan = [plan EXCEPT ![ctl.crash] = IF ctl.w = 4 THEN 0 - 1 ELSE Val(ctl.crash)]])
  /\ UNCHANGED <<rix, iix, saves, ctl, req, ph, out, db, plan>>

Next ==
  \/ Choose \/ Save \/ Fuzz \/ Skip
  \/ \E p \in 1..NP : Del(p) \/ Lock(p) \/ (\E v \in 1..J.k : Put(p, v)) \/ (\E q \in 1..NP : Swap(p, q) \/ Mv(p, q))
  \/ \E k \in 1..Len(saves) : Restore(k)
  \/ \E x \in XN : (\E i \in 1..Len(J.nodes[x].rules) : Rule(x, i)) \/ (\E i \in 1..Len(J.nodes[x].inss) : Ins(x, i))
  \/ \E m \in Modes, c \in Ctls, i \in 1..Len(J.rootss) : Begin(m, c, Range(J.rootss[i]))
  \/ \E x \in XN : StartNode(x) \/ PreDone(x) \/ Check(x) \/ EnterNode(x) \/ ExitNode(x) \/ SubDone(x)
  \/ EndRun \/ CrashRun

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(***************************************************************************)
(* It implements FabFiles: every observable step is allowed there.         *)
(***************************************************************************)
CoreNext ==
  \/ ~run.on /\ UNCHANGED <<tid, def, run, st, rec, seen>>                     \* edits
  \/ ~run.on /\ run'.on /\ UNCHANGED <<tid, fs, rec, seen>>
  \/ \E x \in Nodes : Enter(x) \/ (\E ok \in BOOLEAN : Exit(x, ok, fs'))
  \/ End(\A r \in run.roots : out[r] = "ok")
  \/ Crash(fs')
Refines == [][CoreNext]_cvars

(* What is recorded is in the database, and what is in the database has been built successfully. *)
DBSound == /\ ~run.on => rec \subseteq db
           /\ ~run.on => \A s \in db : <<s[1], FilesIn(s[4]), FilesIn(s[5])>> \in seen
(* Dry runs change nothing. *)
DryInert == [][run.on /\ run.dry => db' = db /\ fs' = fs]_vars
(* After a build that succeeded with the database, building again does nothing. *)
UpToDateAfter == [][(run.on /\ ~run'.on /\ UsesDB /\ run.db = "ok" /\ (\A r \in run.roots : ph[r] = "done" /\ out[r] = "ok"))
                     => \A r \in run.roots : Strict(r) \in db]_vars
Progress == run.on ~> ~run.on

(* For simulation *)
Emit == (nops = J.maxops /\ cat = "" /\ ~run.on) => PrintT("BEH " \o ToJson([tid |-> tid, steps |-> hist]))
View == <<cvars, cm, rix, iix, saves, cat, nops, ctl, req, ph, out, db, plan>>
=============================================================================
