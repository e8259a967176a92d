---------------------------- MODULE FabIndentGen ----------------------------
(***************************************************************************)
(* Behaviours of FabIndent, bounded, and what has to hold in them: the     *)
(* output of a copier is a function of all that was written to it.         *)
(***************************************************************************)
EXTENDS FabIndent, TLC, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.INDCFG) \* [items, prefixes, maxwrite, maxops, maxdepth, maxcopiers]
Items == Range(Cfg.items)

VARIABLES hist, nops, all, cat, cur
gvars == <<hist, nops, all, cat, cur>>   \* all: what was written to every copier
vars == <<ivars, gvars>>
None == [k |-> 0, items |-> <<>>]

Init == IndentInit /\ hist = <<>> /\ nops = 0 /\ all = Nothing /\ cat = "" /\ cur = None
Log(o) == hist' = Append(hist, o) /\ nops' = nops + 1 /\ cat' = "" /\ cur' = None
Choose == cat = "" /\ nops < Cfg.maxops /\ (\E i \in 1..Len(Cfg.cats) : cat' = Cfg.cats[i]) /\ UNCHANGED <<ivars, hist, nops, all, cur>>
DoBegin == cat = "begin" /\ Depth < Cfg.maxdepth
           /\ (\E how \in {"ok", "fail", "twice"} : BeginRun(nops + 1) /\ Log([op |-> "begin", r |-> nops + 1, how |-> how])) /\ UNCHANGED all
DoEnd == cat = "end" /\ (\E r \in running : EndRun(r) /\ Log([op |-> "end", r |-> r])) /\ UNCHANGED all
(* Calls that do not run anything *)
DoEmpty == cat = "empty" /\ (\E how \in {"none", "bad", "again"} : Log([op |-> "empty", how |-> how])) /\ UNCHANGED <<ivars, all>>
DoNew == cat = "new" /\ Cardinality(DOMAIN copiers) < Cfg.maxcopiers
         /\ \E i \in 1..Len(Cfg.prefixes), sink \in 1..3 : LET k == Cardinality(DOMAIN copiers) + 1 IN
              /\ NewCopier(k, Cfg.prefixes[i], sink)
              /\ all' = [j \in DOMAIN all \cup {k} |-> IF j = k THEN <<>> ELSE all[j]]
              /\ Log([op |-> "new", k |-> k, prefix |-> i, sink |-> sink])
(* The text of a write is put together step by step. *)
Start == cat = "write" /\ cur = None /\ DOMAIN copiers # {} /\ (\E k \in DOMAIN copiers : cur' = [k |-> k, items |-> <<>>])
         /\ UNCHANGED <<ivars, hist, nops, all, cat>>
StartF == cat = "indentf" /\ cur = None /\ cur' = [k |-> 99, items |-> <<>>] /\ UNCHANGED <<ivars, hist, nops, all, cat>>
More == cur # None /\ Len(cur.items) < Cfg.maxwrite /\ (\E i \in 1..Len(Cfg.items) : cur' = [cur EXCEPT !.items = Append(@, Cfg.items[i])])
        /\ UNCHANGED <<ivars, hist, nops, all, cat>>
DoWrite == /\ cur # None /\ cur.k # 99 /\ Write(cur.k, cur.items)
           /\ all' = [all EXCEPT ![cur.k] = @ \o cur.items]
           /\ Log([op |-> "write", k |-> cur.k, items |-> cur.items])
DoIndentf == cur # None /\ cur.k = 99 /\ Indentf(cur.items) /\ Log([op |-> "indentf", items |-> cur.items]) /\ UNCHANGED all
Skip == /\ cat # "" /\ cur = None
        /\ \/ (cat = "begin" /\ Depth >= Cfg.maxdepth)
           \/ (cat = "end" /\ running = {})
           \/ (cat = "new" /\ Cardinality(DOMAIN copiers) >= Cfg.maxcopiers)
           \/ (cat = "write" /\ DOMAIN copiers = {})
        /\ cat' = (IF Cardinality(DOMAIN copiers) < Cfg.maxcopiers THEN "new" ELSE "write")
        /\ UNCHANGED <<ivars, hist, nops, all, cur>>
Next == Choose \/ DoBegin \/ DoEnd \/ DoEmpty \/ DoNew \/ Start \/ StartF \/ More \/ DoWrite \/ DoIndentf \/ Skip
Spec == Init /\ [][Next]_vars

(* With a single copier per sink, and nothing else written there: *)
Alone(k) == \A j \in DOMAIN copiers : j # k => copiers[j].sink # copiers[k].sink
Function == \A k \in DOMAIN copiers : (Alone(k) /\ copiers[k].sink # 1) => sinks[copiers[k].sink] = Decl(all[k], copiers[k].ind)
Emit == (nops = Cfg.maxops /\ cat = "") => PrintT("BEH " \o ToJson([tid |-> 1, steps |-> hist]))
View == <<ivars, nops, all, cat, cur>>
=============================================================================
