----------------------------- MODULE FabCommand -----------------------------
(***************************************************************************)
(* What Command targets do (property C13, parts of C11 and C15).           *)
(*                                                                         *)
(* A configuration c has these fields:                                     *)
(*   form     "go" or "yaml"                                               *)
(*   yd       the directory of the YAML file, below the top directory      *)
(*   mode     "shell" (with some $SHELL that only records its arguments),  *)
(*            "sh" (a real shell), or "cmd" (program and arguments)        *)
(*   shells   the shell commands (several: a list in YAML)                 *)
(*   list     whether they are in a list                                   *)
(*   args     what the program is to see as its arguments                  *)
(*   prog     "ok" or "missing"                                            *)
(*   dir      "", "sub", "abs", or "gone" (does not exist)                 *)
(*   env      additions: pairs of name and value                           *)
(*   stdin    "none", "reader", "file", "missing", "$stdin"                *)
(*   out, err destinations: [t, f]                                         *)
(*   verbose, dry                                                          *)
(*   depth    how many targets the command is nested in                    *)
(* sinks maps every place that output may go to to what is in it.          *)
(***************************************************************************)
EXTENDS FabText, FiniteSets, TLC

VARIABLES c, sinks, k, phase, acc, code
mvars == <<c, sinks, k, phase, acc, code>>

Absent == "(absent)"
Files == {"o1", "o2", "A"}
Sinks == Files \cup {"fabout", "faberr", "w1", "w2"}

N == IF c.list THEN Len(c.shells) ELSE 1
Depth == 1 + c.depth + (IF c.list THEN 1 ELSE 0)

(* Where a stream goes: kind "raw", "ind" (indented), "cap" (captured), "none" (discarded). *)
OwnStd(s) == IF s = "out" THEN "fabout" ELSE "faberr"
ToInd(s) == [kind |-> "ind", sink |-> OwnStd(s), id |-> s]
Captured == [kind |-> "cap", sink |-> "", id |-> "cap"]
Dflt(s) == IF c.verbose THEN ToInd(s) ELSE Captured
Raw(sink) == [kind |-> "raw", sink |-> sink, id |-> sink]
Route(s) ==
  LET d == c[s] IN
  CASE d.t \in {"file", "append"} -> Raw(d.f)
    [] d.t \in {"writer", "fn", "fnclose"} -> Raw(d.f)
    [] d.t = "$stdout" -> Raw("fabout")
    [] d.t = "$stderr" -> Raw("faberr")
    [] d.t = "$discard" -> [kind |-> "none", sink |-> "", id |-> "none"]
    [] d.t = "$indent" -> ToInd(s)
    [] d.t = "$verbose" -> IF c.verbose THEN ToInd(s) ELSE Captured
    [] OTHER -> Dflt(s)    \* "default", "fnnil"
IsFile(s) == c[s].t \in {"file", "append"}
Appends(s, n) == c[s].t = "append" \/ (c.list /\ n > 1)

(* Things that keep the command from being started *)
Conflict == IsFile("out") /\ IsFile("err") /\ c.out.f = c.err.f /\ c.out.t # c.err.t
MustFail == /\ N > 0
            /\ \/ Conflict
               \/ c.out.t = "nodir" \/ c.err.t = "nodir"
               \/ c.stdin = "missing" \/ c.prog = "missing" \/ c.dir = "gone"

(* What the process should see *)
Base == IF c.form = "go" THEN "cwd" ELSE IF c.yd = "" THEN "top" ELSE "top/" \o c.yd
DirSeen == CASE c.dir = "" -> Base [] c.dir = "abs" -> "abs" [] OTHER -> Base \o "/" \o c.dir
ArgsSeen(n) == IF c.mode = "shell" THEN <<"-c", c.shells[n]>> ELSE c.args
Original == [BASE |-> "base", X1 |-> "old", X2 |-> "(unset)"]
Adds(v) == {i \in DOMAIN c.env : c.env[i][1] = v}
Max2(S) == CHOOSE i \in S : \A j \in S : j <= i
EnvSeen == [v \in DOMAIN Original |-> IF Adds(v) = {} THEN Original[v] ELSE c.env[Max2(Adds(v))][2]]
StdinSeen == CASE c.stdin = "reader" -> "from the reader" [] c.stdin = "file" -> "from the file\n"
               [] c.stdin = "$stdin" -> "fab's standard input" [] OTHER -> ""
ReportOk(n, r) == /\ r.args = ArgsSeen(n) /\ r.dir = DirSeen /\ r.env = EnvSeen
                  /\ (r.reads => r.stdin = IF n = 1 \/ c.stdin # "$stdin" THEN StdinSeen ELSE r.stdin)

FreshAcc == [out |-> Fresh, err |-> Fresh]
Configure(cfg, S) == /\ phase = "none" /\ c' = cfg /\ sinks' = S /\ k' = 0 /\ phase' = "ready" /\ code' = 0 /\ acc' = FreshAcc

(* A process starts and finds its surroundings. *)
CanStart == ~c.dry /\ ~MustFail /\ k < N /\ (phase = "ready" \/ (phase = "exited" /\ code = 0))
Opened(S, s, n) == IF ~IsFile(s) THEN S
                   ELSE [S EXCEPT ![c[s].f] = IF ~Appends(s, n) \/ @ = Absent THEN "" ELSE @]
Proc(r) ==
  /\ CanStart /\ ReportOk(k + 1, r)
  /\ k' = k + 1 /\ phase' = "running" /\ acc' = FreshAcc /\ code' = 0
  /\ sinks' = Opened(Opened(sinks, "out", k + 1), "err", k + 1)
  /\ UNCHANGED c

(* The process writes something.  If both streams go the same way, the order is kept. *)
Same == Route("out") = Route("err")
Slot(s) == IF Same THEN "out" ELSE s
Chunk(s, items) ==
  /\ phase = "running"
  /\ acc' = [acc EXCEPT ![Slot(s)] =
               CASE Route(s).kind = "ind" -> Feed(@, items, Indent(Depth, "    "))
                 [] OTHER -> [@ EXCEPT !.out = @ \o Plain(items)]]
  /\ UNCHANGED <<c, sinks, k, phase, code>>

(* The two streams take different ways to the same place. *)
Mixed == ~Same /\ Route("out").sink = Route("err").sink /\ Route("out").kind \in {"raw", "ind"}
Exit(x) ==
  /\ phase = "running"
  /\ phase' = "exited" /\ code' = x
  /\ sinks' = IF Mixed THEN sinks
              ELSE [p \in Sinks |-> IF \E s \in {"out", "err"} : Route(s).kind \in {"raw", "ind"} /\ Route(s).sink = p
                                    THEN sinks[p] \o acc[Slot(CHOOSE s \in {"out", "err"} : Route(s).kind \in {"raw", "ind"} /\ Route(s).sink = p)].out
                                    ELSE sinks[p]]
  /\ UNCHANGED <<c, k, acc>>

(* Is w an interleaving of a and b? *)
RECURSIVE Merge(_, _, _, _, _)
Merge(w, a, b, i, S) ==  \* S: how much of a may have been used in the first i characters
  IF i = Len(w) THEN Len(a) \in S
  ELSE LET x == SubSeq(w, i + 1, i + 1)
           T == {j + 1 : j \in {j \in S : j < Len(a) /\ SubSeq(a, j + 1, j + 1) = x}}
                \cup {j \in S : i - j < Len(b) /\ SubSeq(b, i - j + 1, i - j + 1) = x}
       IN T # {} /\ Merge(w, a, b, i + 1, T)
Interleaves(w, a, b) == Len(w) = Len(a) + Len(b) /\ Merge(w, a, b, 0, {0})
StartsWith(w, u) == Len(w) >= Len(u) /\ SubSeq(w, 1, Len(u)) = u
Rest(w, u) == SubSeq(w, Len(u) + 1, Len(w))

SinksOk(S) ==
  IF c.dry THEN S = sinks
  ELSE IF MustFail
  THEN \A p \in Sinks : \/ S[p] = sinks[p]
                        \/ \E s \in {"out", "err"} : IsFile(s) /\ c[s].f = p /\ S[p] = "" /\ (sinks[p] = Absent \/ c[s].t = "file")
  ELSE \A p \in Sinks : IF Mixed /\ p = Route("out").sink
                        THEN StartsWith(S[p], sinks[p]) /\ Interleaves(Rest(S[p], sinks[p]), acc.out.out, acc.err.out)
                        ELSE S[p] = sinks[p]
CapSeen == IF Route("out").kind = "cap" THEN acc.out.out ELSE IF Route("err").kind = "cap" THEN acc.err.out ELSE ""
Done == IF c.dry \/ MustFail \/ N = 0 THEN phase = "ready" ELSE phase = "exited" /\ (code # 0 \/ k = N)
OkSeen == c.dry \/ (~MustFail /\ code = 0)
(* fns: for both streams, how often the function was called and the writer closed *)
FnsOk(fns) == \A s \in {"out", "err"} :
  /\ c[s].t = "fnclose" => fns[s].closed = fns[s].called
  /\ (c[s].t \in {"fn", "fnclose", "fnnil"} /\ k > 0) => fns[s].called = 1
(* The target ends. *)
EndOk(ok, cap, S, fns) ==
  /\ Done /\ ok = OkSeen /\ SinksOk(S) /\ FnsOk(fns)
  /\ (~ok /\ ~MustFail) => cap = CapSeen
End(ok, cap, S, fns) == EndOk(ok, cap, S, fns) /\ phase' = "none" /\ UNCHANGED <<c, sinks, k, acc, code>>
=============================================================================
