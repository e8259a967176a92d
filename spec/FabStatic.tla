----------------------------- MODULE FabStatic -----------------------------
(***************************************************************************)
(* Which targets the Go code of a _fab package defines (property C22).     *)
(*                                                                         *)
(* Types are                                                               *)
(*   [k |-> "named", n |-> name]                                           *)
(*   [k |-> "ptr", t |-> type]                                             *)
(*   [k |-> "struct", fields |-> <<[n |-> name, emb |-> embedded?, t]>>]   *)
(*   [k |-> "iface", ms |-> <<[n |-> name, ok |-> signature]>>, embs]      *)
(*   [k |-> "other"]   (numbers, functions, maps, ...)                     *)
(* where ok tells whether a method has the signature that fab.Target       *)
(* requires of a method of that name.  D is the sequence of declared types *)
(*   [n |-> name, alias, t |-> type, ms |-> <<[n, ok, ptr]>>]              *)
(* (ptr: the receiver is a pointer).                                       *)
(*                                                                         *)
(* A package is a record of types and of decls, the identifiers declared   *)
(* at package level in all of its directory's files:                       *)
(*   [n |-> name, exp |-> exported?, var |-> a variable?, part |-> is the  *)
(*    file part of the package?, t |-> type, own, group |-> the comments   *)
(*    before the variable and the declaration, id |-> which target it is]  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Decl(D, n) == CHOOSE d \in ToSet(D) : d.n = n
RECURSIVE Resolve(_, _)    \* without aliases
Resolve(D, t) == IF t.k = "named" /\ Decl(D, t.n).alias THEN Resolve(D, Decl(D, t.n).t) ELSE t
RECURSIVE Under(_, _)      \* the underlying type
Under(D, t) == LET r == Resolve(D, t) IN IF r.k = "named" THEN Under(D, Decl(D, r.n).t) ELSE r

RECURSIVE IfaceMethods(_, _)
IfaceMethods(D, t) == LET u == Under(D, t) IN
  ToSet(u.ms) \cup UNION {IfaceMethods(D, e) : e \in ToSet(u.embs)}

(* What a type (not a pointer) itself declares by that name. *)
Here(D, t, f) ==
  LET r == Resolve(D, t)
      u == Under(D, t)
      ms == IF r.k = "named" THEN SelectSeq(Decl(D, r.n).ms, LAMBDA m : m.n = f) ELSE <<>>
  IN IF ms # <<>> THEN <<[method |-> TRUE, ok |-> ms[1].ok, ptr |-> ms[1].ptr]>>
     ELSE IF u.k = "iface" /\ (\E m \in IfaceMethods(D, t) : m.n = f)
          THEN <<[method |-> TRUE, ok |-> (CHOOSE m \in IfaceMethods(D, t) : m.n = f).ok, ptr |-> FALSE]>>
     ELSE IF u.k = "struct" /\ (\E x \in ToSet(u.fields) : x.n = f) THEN <<[method |-> FALSE, ok |-> FALSE, ptr |-> FALSE]>>
     ELSE <<>>

(* An occurrence of a type: ind tells whether it is reached through a pointer. *)
Occ(D, t, ind) == LET r == Resolve(D, t) IN
                  IF r.k = "ptr" THEN [t |-> Resolve(D, r.t), ind |-> TRUE] ELSE [t |-> r, ind |-> ind]
Embedded(D, o) == LET u == Under(D, o.t) IN
                  IF u.k # "struct" THEN <<>>
                  ELSE LET es == SelectSeq(u.fields, LAMBDA x : x.emb) IN [i \in 1..Len(es) |-> Occ(D, es[i].t, o.ind)]

(* What a selector means: the one at the shallowest depth, if there is just one. *)
None == [method |-> FALSE, ok |-> FALSE, ptr |-> FALSE, ind |-> FALSE]
RECURSIVE Select(_, _, _, _)
Select(D, level, f, more) ==
  LET hits == FlattenSeq([i \in 1..Len(level) |-> LET h == Here(D, level[i].t, f) IN
                            [j \in 1..Len(h) |-> [method |-> h[j].method, ok |-> h[j].ok, ptr |-> h[j].ptr, ind |-> level[i].ind]]])
  IN IF Len(hits) = 1 THEN hits[1]
     ELSE IF Len(hits) > 1 \/ more = 0 \/ level = <<>> THEN None
     ELSE Select(D, FlattenSeq([i \in 1..Len(level) |-> Embedded(D, level[i])]), f, more - 1)

MaxDepth == 6
(* Defined pointer types, and pointers to pointers and interfaces, have no methods. *)
HasMethod(D, t, f) ==
  LET r == Resolve(D, t)
      o == Occ(D, t, FALSE)
      m == Select(D, <<o>>, f, MaxDepth)
  IN IF r.k = "named" /\ Under(D, r).k = "ptr" THEN FALSE
     ELSE IF r.k = "ptr" /\ Under(D, r.t).k \in {"ptr", "iface"} THEN FALSE
     ELSE m.method /\ m.ok /\ (m.ptr => m.ind)
Implements(D, t) == HasMethod(D, t, "Run") /\ HasMethod(D, t, "Desc")

(* Fab requires targets to be pointers. *)
Pointer(D, t) == Under(D, t).k \in {"ptr", "iface"}

Candidates(p) == {v \in ToSet(p.decls) : v.var /\ v.exp /\ v.part}
GoTargets(p) == {v \in Candidates(p) : Implements(p.types, v.t)}
Legal(p) == \A v \in GoTargets(p) : Pointer(p.types, v.t)
DocOf(v) == IF v.own # "" THEN v.own ELSE v.group

Offered(p) == {[name |-> v.n, doc |-> DocOf(v)] : v \in GoTargets(p)} \cup {[name |-> y.name, doc |-> y.doc] : y \in ToSet(p.yaml)}
IdOf(p, name) == IF \E v \in GoTargets(p) : v.n = name THEN (CHOOSE v \in GoTargets(p) : v.n = name).id ELSE name

VARIABLE pkg
List(ok, listed) == Legal(pkg) => ok /\ listed = Offered(pkg)
(* ran: the targets that ran, each time they did *)
Run(words, ok, ran) ==
  Legal(pkg) =>
    IF \A w \in ToSet(words) : \E x \in Offered(pkg) : x.name = w
    THEN /\ ok
         /\ ToSet(ran) = {IdOf(pkg, w) : w \in ToSet(words)}
         /\ Len(ran) = Cardinality(ToSet(ran))
    ELSE ~ok /\ ran = <<>>
=============================================================================
