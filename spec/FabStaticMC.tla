---------------------------- MODULE FabStaticMC ----------------------------
(***************************************************************************)
(* Consequences of FabStatic's definitions, for all sets of up to three    *)
(* small struct types: what Go's language definition says of method sets   *)
(* and promoted methods in other words.                                    *)
(***************************************************************************)
EXTENDS FabStatic, TLC

Iface == [n |-> "Target", alias |-> FALSE, ms |-> <<>>,
          t |-> [k |-> "iface", ms |-> <<[n |-> "Run", ok |-> TRUE], [n |-> "Desc", ok |-> TRUE]>>, embs |-> <<>>]]
N(n) == [k |-> "named", n |-> n]
Ptr(t) == [k |-> "ptr", t |-> t]
Emb(t) == [n |-> IF t.k = "ptr" THEN t.t.n ELSE t.n, emb |-> TRUE, t |-> t]
RunField == [n |-> "Run", emb |-> FALSE, t |-> [k |-> "other"]]

Method(f) == {<<>>} \cup {<<[n |-> f, ok |-> o, ptr |-> p]>> : o \in BOOLEAN, p \in BOOLEAN}
Simple == {<<[n |-> "Desc", ok |-> TRUE, ptr |-> FALSE]>>, <<[n |-> "Desc", ok |-> TRUE, ptr |-> TRUE]>>, <<>>}
(* A type: methods and embedded types, among those before it (or a pointer to itself). *)
CONSTANT Rich   \* how many of the types have methods named Desc
Types(name, before, index) ==
  LET es == {Emb(N(b)) : b \in before \cup {"Target"}} \cup {Emb(Ptr(N(b))) : b \in before \cup {name}}
      sets == {s \in SUBSET es : Cardinality(s) <= 2 /\ \A x, y \in s : x # y => x.n # y.n}
      lists == {SetToSeq(s) : s \in sets}
      descs == IF index <= Rich THEN Simple ELSE {<<>>}
      type(l, ms) == [n |-> name, alias |-> FALSE, t |-> [k |-> "struct", fields |-> l], ms |-> ms]
  IN {type(l, m \o d) : l \in lists, m \in Method("Run"), d \in descs}
     \cup {type(<<RunField>> \o l, d) : l \in lists, d \in descs}

VARIABLE D
Init == D = <<Iface>> /\ pkg = 0
Next == /\ Len(D) < 4
        /\ \E d \in Types(<<"A", "B", "C">>[Len(D)], ToSet(SubSeq(<<"A", "B">>, 1, Len(D) - 1)), Len(D)) :
             /\ Len(D) = 3 /\ Rich < 3 => d.ms = <<>>
             /\ Len(D) = 3 /\ Rich < 2 => Len(d.t.fields) = 2 /\ RunField \notin ToSet(d.t.fields)
             /\ Len(D) = 2 /\ Rich < 2 => \A m \in ToSet(d.ms) : m.ok
             /\ D' = Append(D, d)
        /\ UNCHANGED pkg
Spec == Init /\ [][Next]_<<D, pkg>>

(* All the ways to reach something named f, by depth. *)
RECURSIVE Ways(_, _, _)
Ways(o, f, more) ==
  {[depth |-> 0, way |-> <<>>, ind |-> o.ind, h |-> Here(D, o.t, f)[1]] : x \in {1} \cap 1..Len(Here(D, o.t, f))}
  \cup (IF more = 0 THEN {}
        ELSE UNION {{[w EXCEPT !.depth = @ + 1, !.way = <<i>> \o @] : w \in Ways(Embedded(D, o)[i], f, more - 1)} : i \in 1..Len(Embedded(D, o))})
Names == {d.n : d \in ToSet(D)} \ {"Target"}
ByWays(t, f) ==
  LET ws == Ways(Occ(D, t, FALSE), f, 3)
      shallow == {w \in ws : \A v \in ws : w.depth <= v.depth}
  IN Cardinality(shallow) = 1 /\ (LET w == CHOOSE w \in shallow : TRUE IN w.h.method /\ w.h.ok /\ (w.h.ptr => w.ind))

(* the method set of a pointer includes that of what it points to *)
Includes == \A n \in Names : \A f \in {"Run", "Desc"} : HasMethod(D, N(n), f) => HasMethod(D, Ptr(N(n)), f)
Agree == \A n \in Names : \A f \in {"Run", "Desc"} : \A t \in {N(n), Ptr(N(n))} : HasMethod(D, t, f) = ByWays(t, f)
(* Without pointer receivers, there is no difference. *)
NoPtr == (\A d \in ToSet(D) : \A m \in ToSet(d.ms) : ~m.ptr) => \A n \in Names : Implements(D, N(n)) = Implements(D, Ptr(N(n)))
(* Embedding a target alone, and nothing else, makes a target. *)
Wrapper == \A n \in Names : Decl(D, n).ms = <<>> /\ Decl(D, n).t.fields = <<Emb(N("Target"))>> => Implements(D, N(n))
Deref == \A n \in Names : ~Implements(D, Ptr(Ptr(N(n))))
=============================================================================
