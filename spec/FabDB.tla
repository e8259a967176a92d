------------------------------- MODULE FabDB -------------------------------
(***************************************************************************)
(* What a hash database promises (property C10).                           *)
(*                                                                         *)
(* poss[h] is the set of states that the entry for hash h may be in now:   *)
(* the time of its last refresh, or Absent.  It has more than one element  *)
(* while operations are in progress, and for entries whose time has run    *)
(* out but that nothing has evicted for certain.                           *)
(*                                                                         *)
(* Each handle has been opened with some Keep period (0: none) and some    *)
(* setting of UpdateOnAccess.  Times are in milliseconds; an entry may     *)
(* linger for up to a second longer than its time.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Hashes
VARIABLES
  now, handles,   \* handle -> [keep, upd], for open handles
  poss,
  pend            \* operation in progress -> [op, hd, h, can, alone]
dbvars == <<now, handles, poss, pend>>

Absent == 0 - 1
Granule == 1000

NoHandles == [x \in {} |-> 0]

Expired(t, k) == k > 0 /\ t # Absent /\ now - t > k             \* may be evicted
Gone(t, k)    == k > 0 /\ t # Absent /\ now - t >= k + Granule   \* is evicted

Results(P) == (IF P # {Absent} THEN {TRUE} ELSE {}) \cup (IF Absent \in P THEN {FALSE} ELSE {})

Open(n, k, u) == /\ n \notin DOMAIN handles
                 /\ handles' = [m \in DOMAIN handles \cup {n} |-> IF m = n THEN [keep |-> k, upd |-> u] ELSE handles[m]]
                 /\ UNCHANGED <<now, poss, pend>>
Close(n) == /\ n \in DOMAIN handles
            /\ \A i \in DOMAIN pend : pend[i].hd # n
            /\ handles' = [m \in DOMAIN handles \ {n} |-> handles[m]]
            /\ UNCHANGED <<now, poss, pend>>
Advance(d) == /\ d > 0 /\ DOMAIN pend = {}
              /\ now' = now + d
              /\ UNCHANGED <<handles, poss, pend>>

(* Operation i begins: from now on it may have taken effect. *)
Begin(i, op, n, h) ==
  /\ n \in DOMAIN handles /\ i \notin DOMAIN pend
  /\ LET k == handles[n].keep
         p1 == IF op = "add"
               THEN [g \in Hashes |-> (poss[g] \cup (IF g = h THEN {now} ELSE {}))
                                      \cup (IF \E t \in poss[g] : Expired(t, k) THEN {Absent} ELSE {})]
               ELSE [g \in Hashes |-> poss[g] \cup (IF g = h /\ handles[n].upd /\ poss[g] # {Absent} THEN {now} ELSE {})]
     IN /\ poss' = p1
        /\ pend' = [j \in DOMAIN pend \cup {i} |->
                      LET o == IF j = i THEN [op |-> op, hd |-> n, h |-> h, can |-> Results(poss[h]), alone |-> DOMAIN pend = {}]
                               ELSE [pend[j] EXCEPT !.alone = FALSE]
                      IN [o EXCEPT !.can = @ \cup Results(p1[o.h])]]
  /\ UNCHANGED <<now, handles>>

Others(i) == DOMAIN pend \ {i}
EndOk(i, r) == i \in DOMAIN pend /\ (pend[i].op = "has" => r \in pend[i].can)
End(i, r) ==
  /\ EndOk(i, r)
  /\ LET o == pend[i]
         k == handles[o.hd].keep IN
     /\ poss' = IF o.op = "add"
                THEN [g \in Hashes |-> IF g = o.h THEN {now}
                                       ELSE {IF Gone(t, k) THEN Absent ELSE t : t \in poss[g]}]
                ELSE IF o.alone  \* nothing else happened meanwhile
                THEN [poss EXCEPT ![o.h] = IF r THEN (IF handles[o.hd].upd THEN {now} ELSE @ \ {Absent}) ELSE {Absent}]
                ELSE poss
     /\ pend' = [j \in Others(i) |-> pend[j]]
  /\ UNCHANGED <<now, handles>>

DBInit == now = 0 /\ handles = NoHandles /\ poss = [h \in Hashes |-> {Absent}] /\ pend = NoHandles
=============================================================================
