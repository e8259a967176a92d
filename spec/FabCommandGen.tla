--------------------------- MODULE FabCommandGen ---------------------------
(***************************************************************************)
(* Configurations, put together field by field, and what processes then    *)
(* do: behaviours of FabCommand, to be replayed.                           *)
(***************************************************************************)
EXTENDS FabCommand, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.CMDCFG)  \* what to choose from

VARIABLES stage, procs, cur, init
gvars == <<stage, procs, cur, init>>
vars == <<mvars, gvars>>

Fields == <<"form", "yd", "mode", "list", "args", "prog", "dir", "env1", "env2", "stdin", "out", "err", "verbose", "dry", "depth", "nshell", "sp">>
Blank == [form |-> "go", yd |-> "", mode |-> "cmd", shells |-> <<"shell 1">>, list |-> FALSE, args |-> <<>>, prog |-> "ok", dir |-> "", env |-> <<>>,
          stdin |-> "none", out |-> [t |-> "default", f |-> ""], err |-> [t |-> "default", f |-> ""], verbose |-> FALSE, dry |-> FALSE, depth |-> 0, sp |-> FALSE]

Init == /\ c = Blank /\ sinks = [p \in Sinks |-> Absent] /\ k = 0 /\ phase = "none" /\ acc = FreshAcc /\ code = 0
        /\ stage = 1 /\ procs = <<>> /\ cur = <<>> /\ init = <<>>

Shells(n) == SubSeq(<<"shell 1", "echo $X; 'two'", "# three">>, 1, n)
Dests(s) == {d \in Range(Cfg.dests) : IF c.form = "yaml" THEN d.t \notin {"writer", "fn", "fnclose", "fnnil"} ELSE d.t \notin {"$indent", "$verbose"}}
Set(f) ==
  CASE f = "form" -> \E v \in Range(Cfg.forms) : c' = [c EXCEPT !.form = v]
    [] f = "yd" -> IF c.form = "yaml" THEN \E v \in Range(Cfg.yds) : c' = [c EXCEPT !.yd = v] ELSE UNCHANGED c
    [] f = "mode" -> \E v \in Range(Cfg.modes) : c' = [c EXCEPT !.mode = v]
    [] f = "list" -> IF c.form = "yaml" /\ c.mode # "cmd" THEN \E v \in BOOLEAN : c' = [c EXCEPT !.list = v] ELSE UNCHANGED c
    [] f = "nshell" -> IF c.list /\ ~Mixed THEN \E v \in 0..3 : c' = [c EXCEPT !.shells = Shells(v)] ELSE UNCHANGED c
    [] f = "args" -> IF c.mode = "shell" THEN UNCHANGED c
                     ELSE LET A == IF c.mode = "cmd" THEN Cfg.args ELSE Cfg.shargs IN \E i \in 1..Len(A) : c' = [c EXCEPT !.args = A[i]]
    [] f = "prog" -> IF c.mode = "cmd" THEN \E i \in 1..Len(Cfg.progs) : c' = [c EXCEPT !.prog = Cfg.progs[i]] ELSE UNCHANGED c
    [] f = "dir" -> \E i \in 1..Len(Cfg.dirs) : c' = [c EXCEPT !.dir = Cfg.dirs[i]]
    [] f \in {"env1", "env2"} -> \E i \in 1..Len(Cfg.envs) : c' = [c EXCEPT !.env = @ \o Cfg.envs[i]]
    [] f = "stdin" -> \E i \in 1..Len(Cfg.stdins) : c' = [c EXCEPT !.stdin = IF c.form = "yaml" /\ Cfg.stdins[i] = "reader" THEN "file" ELSE Cfg.stdins[i]]
    [] f = "out" -> \E d \in Dests("out") : c' = [c EXCEPT !.out = d]
    [] f = "err" -> \E d \in {d \in Dests("err") : (d.f = c.out.f /\ d.f \in {"w1", "w2"}) => (d.t = "writer" /\ c.out.t = "writer")} : c' = [c EXCEPT !.err = d]
    [] f = "verbose" -> \E v \in BOOLEAN : c' = [c EXCEPT !.verbose = v]
    [] f = "dry" -> \E v \in Range(Cfg.drys) : c' = [c EXCEPT !.dry = v]
    [] f = "depth" -> \E v \in Range(Cfg.depths) : c' = [c EXCEPT !.depth = v]
    [] f = "sp" -> \E v \in Range(Cfg.sps) : c' = [c EXCEPT !.sp = v]

Choose == /\ stage <= Len(Fields) /\ Set(Fields[stage]) /\ stage' = stage + 1
          /\ UNCHANGED <<sinks, k, phase, acc, code, procs, cur, init>>
(* What is in the files to begin with *)
Begin == /\ stage = Len(Fields) + 1 /\ stage' = stage + 1
         /\ \E a, b, d \in Range(Cfg.inits) :
              init' = [p \in Sinks |-> CASE p = "o1" -> a [] p = "o2" -> b [] p = "A" -> d [] OTHER -> ""]
         /\ Configure(c, init') /\ UNCHANGED <<procs, cur>>
Start == /\ stage = Len(Fields) + 2 /\ CanStart
         /\ \E reads \in BOOLEAN :
              /\ Proc([args |-> ArgsSeen(k + 1), dir |-> DirSeen, env |-> EnvSeen, reads |-> reads, stdin |-> StdinSeen])
              /\ cur' = <<[s |-> IF reads THEN "reads" ELSE "", items |-> <<>>]>>
         /\ UNCHANGED <<stage, procs, init>>
Write == /\ phase = "running" /\ Len(cur) <= Cfg.maxchunks
         /\ \E s \in {"out", "err"}, i \in 1..Len(Cfg.texts) : Chunk(s, Cfg.texts[i]) /\ cur' = Append(cur, [s |-> s, items |-> Cfg.texts[i]])
         /\ UNCHANGED <<stage, procs, init>>
Stop == /\ phase = "running"
        /\ \E x \in Range(Cfg.codes) : Exit(x) /\ procs' = Append(procs, [reads |-> cur[1].s = "reads", chunks |-> Tail(cur), code |-> x])
        /\ cur' = <<>> /\ UNCHANGED <<stage, init>>
Finish == /\ stage = Len(Fields) + 2 /\ Done
          /\ End(OkSeen, CapSeen, sinks, [out |-> [called |-> 1, closed |-> 1], err |-> [called |-> 1, closed |-> 1]])
          /\ stage' = stage + 1 /\ UNCHANGED <<procs, cur, init>>
Next == Choose \/ Begin \/ Start \/ Write \/ Stop \/ Finish
Spec == Init /\ [][Next]_vars

(* Everything written arrives in one place, or is captured or discarded. *)
RECURSIVE Total(_, _, _)
Total(ps, s, i) == IF i > Len(ps) THEN 0
                   ELSE LET RECURSIVE Sum(_)
                            Sum(j) == IF j > Len(ps[i].chunks) THEN 0
                                      ELSE (IF ps[i].chunks[j].s \in s THEN Len(Plain(ps[i].chunks[j].items)) ELSE 0) + Sum(j + 1)
                        IN Sum(1) + Total(ps, s, i + 1)
RawOnly(p) == {s \in {"out", "err"} : Route(s).kind = "raw" /\ Route(s).sink = p}
Len0(x) == IF x = Absent THEN 0 ELSE Len(x)
Conserved == (phase = "exited" /\ ~Mixed) =>
  \A p \in Sinks : LET R == RawOnly(p) IN
     (R # {} /\ \A s \in {"out", "err"} : Route(s).sink = p => s \in R) =>
        Len0(sinks[p]) = Total(procs, R, 1) + (IF \E s \in R : IsFile(s) /\ ~Appends(s, 1) THEN 0 ELSE Len0(init[p]))
Emit == (stage = Len(Fields) + 3) => PrintT("BEH " \o ToJson([tid |-> 1, c |-> c, init |-> init, procs |-> procs]))
=============================================================================
