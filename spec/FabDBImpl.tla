----------------------------- MODULE FabDBImpl -----------------------------
(***************************************************************************)
(* The algorithm: a table of hashes with the second of their last refresh; *)
(* adding is an upsert followed by eviction, looking up is an update       *)
(* (or a query).  It refines FabDB.  Its behaviours are replayed on the    *)
(* real code, in rounds of concurrent operations.                          *)
(***************************************************************************)
EXTENDS FabDB, TLC, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.DBCFG)  \* [keeps, steps, maxrounds, maxpar, maxhandles]

VARIABLES tab, ph, round, nround, hist, cat
ivars == <<tab, ph, round, nround, hist, cat>>
vars == <<dbvars, ivars>>

Sec(t) == t \div 1000
FloorDiv(a) == IF a >= 0 THEN a \div 1000 ELSE 0 - ((999 - a) \div 1000)

Init == DBInit /\ tab = NoHandles /\ ph = NoHandles /\ round = <<>> /\ nround = 0 /\ hist = <<>> /\ cat = "ops"

Log(r) == hist' = Append(hist, r) /\ nround' = nround + 1 /\ cat' = ""

Choose == /\ cat = "" /\ DOMAIN pend = {} /\ round = <<>> /\ nround < Cfg.maxrounds
          /\ cat' \in {"ops", "one", "advance", "handle"}
          /\ UNCHANGED <<dbvars, tab, ph, round, nround, hist>>

OpenH(n, k, u) == /\ cat \in {"handle"} /\ DOMAIN pend = {} /\ n \in 1..Cfg.maxhandles
                  /\ Open(n, k, u) /\ Log([r |-> "open", hd |-> n, keep |-> k, upd |-> u])
                  /\ UNCHANGED <<tab, ph, round>>
CloseH(n) == /\ cat = "handle" /\ DOMAIN pend = {} /\ Close(n) /\ Log([r |-> "close", hd |-> n])
             /\ UNCHANGED <<tab, ph, round>>
Adv(d) == /\ cat = "advance" /\ Advance(d) /\ Log([r |-> "advance", d |-> d])
          /\ UNCHANGED <<tab, ph, round>>
NoOps == /\ cat \in {"ops", "one"} /\ DOMAIN handles = {} /\ cat' = "handle"
         /\ UNCHANGED <<dbvars, tab, ph, round, nround, hist>>

Free == Len(round) + 1
StartOp(op, n, h) ==
  /\ \/ cat = "ops" /\ Len(round) < Cfg.maxpar
     \/ cat = "one" /\ Len(round) < 1
  /\ nround < Cfg.maxrounds
  /\ Begin(Free, op, n, h)
  /\ round' = Append(round, [op |-> op, hd |-> n, h |-> h])
  /\ ph' = [i \in DOMAIN ph \cup {Free} |-> IF i = Free THEN "new" ELSE ph[i]]
  /\ UNCHANGED <<tab, nround, hist, cat>>

Set(i, p) == ph' = [ph EXCEPT ![i] = p]
Upsert(i) == /\ i \in DOMAIN pend /\ ph[i] = "new" /\ pend[i].op = "add"
             /\ tab' = [h \in DOMAIN tab \cup {pend[i].h} |-> IF h = pend[i].h THEN Sec(now) ELSE tab[h]]
             /\ Set(i, "evict")
             /\ UNCHANGED <<dbvars, round, nround, hist, cat>>
Evict(i) == /\ i \in DOMAIN pend /\ ph[i] = "evict"
            /\ LET k == handles[pend[i].hd].keep IN
               tab' = IF k = 0 THEN tab
                      ELSE [h \in {g \in DOMAIN tab : ~(tab[g] < FloorDiv(now - k))} |-> tab[h]]
            /\ Set(i, "true")
            /\ UNCHANGED <<dbvars, round, nround, hist, cat>>
Lookup(i) == /\ i \in DOMAIN pend /\ ph[i] = "new" /\ pend[i].op = "has"
             /\ IF pend[i].h \in DOMAIN tab
                THEN Set(i, "true") /\ tab' = IF handles[pend[i].hd].upd THEN [tab EXCEPT ![pend[i].h] = Sec(now)] ELSE tab
                ELSE Set(i, "false") /\ UNCHANGED tab
             /\ UNCHANGED <<dbvars, round, nround, hist, cat>>
Finish(i) == /\ i \in DOMAIN pend /\ ph[i] \in {"true", "false"}
             /\ End(i, ph[i] = "true")
             /\ UNCHANGED <<tab, ph, round, nround, hist, cat>>
EndRound == /\ DOMAIN pend = {} /\ round # <<>>
            /\ Log([r |-> "ops", ops |-> round])
            /\ round' = <<>> /\ ph' = NoHandles
            /\ UNCHANGED <<dbvars, tab>>

Next ==
  \/ Choose \/ NoOps
  \/ \E n \in 1..Cfg.maxhandles, k \in Range(Cfg.keeps), u \in BOOLEAN : OpenH(n, k, u)
  \/ \E n \in DOMAIN handles : CloseH(n) \/ \E op \in {"add", "has"}, h \in Hashes : StartOp(op, n, h)
  \/ \E d \in Range(Cfg.steps) : Adv(d)
  \/ \E i \in DOMAIN pend : Upsert(i) \/ Evict(i) \/ Lookup(i) \/ Finish(i)
  \/ EndRound

Spec == Init /\ [][Next]_vars

(* Every result is allowed by FabDB. *)
Allowed == \A i \in DOMAIN pend : ph[i] \in {"true", "false"} => EndOk(i, ph[i] = "true")
(* The table is in one of the states that FabDB considers possible. *)
Sound == \A h \in Hashes :
           IF h \in DOMAIN tab THEN \E t \in poss[h] : t # Absent /\ Sec(t) = tab[h]
           ELSE Absent \in poss[h]
Emit == (nround = Cfg.maxrounds /\ cat = "") => PrintT("BEH " \o ToJson([tid |-> 1, steps |-> hist]))
View == <<dbvars, tab, ph, round, nround, cat>>
=============================================================================
