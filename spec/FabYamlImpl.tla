---------------------------- MODULE FabYamlImpl ----------------------------
(***************************************************************************)
(* How fab reads YAML files: one definition after the other, reading other *)
(* files in the middle when a path to a target leads to them, and leaving  *)
(* references to be resolved later when the file they lead to is being     *)
(* read (further down the stack).  Checked against FabYaml for all small   *)
(* projects: reading ends, reads no file twice, and leads to the registry  *)
(* and errors that FabYaml says, whatever file is read first.              *)
(***************************************************************************)
EXTENDS FabYaml, TLC

CONSTANTS MaxDefs,     \* in all files together
          GoTarget     \* is there one registered from Go, in x?

Top == <<"top">>
DirSeq == <<Top, <<"top", "x">>, <<"top", "z">>>>
Dirs == ToSet(DirSeq)
Node(k, tag, v, kids) == [k |-> k, tag |-> tag, v |-> v, kids |-> kids, doc |-> ""]
Scalar(v) == Node("scalar", "", v, <<>>)

(* What a definition can refer to: nothing, or a target by its path. *)
LeafDef == [d |-> <<>>, n |-> ""]
DefKinds == {LeafDef} \cup [d : Dirs, n : {"A", "B"}]
ValOf(def) == IF def = LeafDef THEN Node("scalar", "Leaf", "L", <<>>) ELSE Scalar("%B/" \o JoinSegs(Append(def.d, def.n)))
DocOf(d, defs) ==
  Node("map", "", "", (IF d = Top THEN <<>> ELSE <<Scalar("_dir"), Scalar(Rel(Top, d))>>)
                      \o FlattenSeq([i \in 1..Len(defs) |-> <<Scalar(<<"A", "B">>[i]), ValOf(defs[i])>>]))
Contents == {<<"none">>, <<"bad">>} \cup {<<"good">> \o s : s \in SeqOf(DefKinds, 2)}
Count(cs) == FoldLeft(LAMBDA n, c : n + Len(c) - 1, 0, cs)
ProjectOf(cs) ==
  [top |-> Top, fs |-> <<>>, calls |-> <<>>, gos |-> IF GoTarget THEN <<[name |-> "x/B", doc |-> "", id |-> "G"]>> ELSE <<>>,
   files |-> FlattenSeq([i \in 1..3 |-> IF cs[i] = <<"none">> THEN <<>>
                                        ELSE <<[dir |-> DirSeq[i], doc |-> IF cs[i] = <<"bad">> THEN Node("bad", "", "", <<>>)
                                                                            ELSE DocOf(DirSeq[i], Tail(cs[i]))]>>])]
(* (A definition that duplicates one in Go is an error of another kind.) *)
Sensible(cs) == Count(cs) <= MaxDefs /\ (GoTarget => Len(cs[2]) <= 2)

VARIABLES cs,       \* the contents of the files
          stack,    \* of files being read: [dir, i: the definition being processed]
          reg,      \* names registered
          opened,   \* how often each file was opened
          late,     \* names to be resolved later
          todo,     \* directories yet to be read on behalf of the user
          state     \* "idle", "reading", "bad"
vars == <<yvars, cs, stack, reg, opened, late, todo, state>>

Proj == ProjectOf(cs)
Index(d) == CHOOSE i \in 1..3 : DirSeq[i] = d
Defn(d) == Tail(cs[Index(d)])
NameOf(d, i) == Rel(Top, Append(d, <<"A", "B">>[i]))

Init == /\ cs \in {c \in [1..3 -> Contents] : Sensible(c)}
        /\ stack = <<>> /\ opened = [d \in Dirs |-> 0] /\ late = {} /\ state = "idle"
        /\ reg = IF GoTarget THEN {"x/B"} ELSE {}
        /\ todo \in {<<Top>>, <<Top, <<"top", "x">>>>, <<<<"top", "x">>, Top>>, <<<<"top", "z">>>>}
        /\ pid = 0 /\ loaded = {} /\ failed = FALSE

Fail == state' = "bad" /\ stack' = <<>>
(* Opening a file. *)
Open(d) == /\ opened' = [opened EXCEPT ![d] = @ + 1]
           /\ IF cs[Index(d)] \in {<<"none">>, <<"bad">>} THEN Fail
              ELSE stack' = Append(stack, [dir |-> d, i |-> 1]) /\ UNCHANGED state

Start == /\ state = "idle" /\ todo # <<>>
         /\ IF Head(todo) \in loaded
            THEN todo' = Tail(todo) /\ UNCHANGED <<state, stack, opened>>
            ELSE /\ UNCHANGED todo
                 /\ opened' = [opened EXCEPT ![Head(todo)] = @ + 1]
                 /\ IF cs[Index(Head(todo))] \in {<<"none">>, <<"bad">>} THEN Fail
                    ELSE state' = "reading" /\ stack' = <<[dir |-> Head(todo), i |-> 1]>>
         /\ UNCHANGED <<yvars, cs, reg, late>>

Above == stack[Len(stack)]
Advance(name) == /\ reg' = reg \cup {name}
                 /\ stack' = [stack EXCEPT ![Len(stack)].i = @ + 1]

Process ==
  /\ state = "reading" /\ stack # <<>> /\ Above.i <= Len(Defn(Above.dir))
  /\ LET def == Defn(Above.dir)[Above.i]
         name == NameOf(Above.dir, Above.i)
         ref == Rel(Top, Append(def.d, def.n))
     IN IF def = LeafDef \/ (def.d # Top /\ ref \in reg)
        THEN Advance(name) /\ UNCHANGED <<opened, late, state>>
        ELSE IF def.d = Top \/ \E j \in 1..Len(stack) : stack[j].dir = def.d
        THEN Advance(name) /\ late' = late \cup {ref} /\ UNCHANGED <<opened, state>>
        ELSE Open(def.d) /\ UNCHANGED <<reg, late>>
  /\ UNCHANGED <<yvars, cs, todo>>

Pop == /\ state = "reading" /\ stack # <<>> /\ Above.i > Len(Defn(Above.dir))
       /\ IF Len(stack) = 1
          THEN /\ stack' = <<>> /\ state' = "idle" /\ todo' = Tail(todo)
               /\ loaded' = loaded \cup Closure(Proj, Head(todo))
               /\ UNCHANGED <<pid, failed>>
          ELSE LET below == stack[Len(stack) - 1]
                   def == Defn(below.dir)[below.i]
                   ref == Rel(Top, Append(def.d, def.n))
               IN /\ IF ref \in reg THEN stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED state ELSE Fail
                  /\ UNCHANGED <<yvars, todo>>
       /\ UNCHANGED <<cs, reg, opened, late>>

Next == Start \/ Process \/ Pop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(***************************************************************************)
(* What FabYaml says                                                       *)
(***************************************************************************)
Tried == Head(todo)      \* the file that could not be read
Failed == state = "bad"
NoFalseFailure == Failed => MustFail(Proj, Tried) \/ Unresolved(Proj, Tried)
NoFalseSuccess == state = "idle" => \A d \in loaded : ~MustFail(Proj, d)
Right_ == state = "idle" => reg = Registered(Proj, loaded)
(* Every reference is resolved, except those that nothing can resolve. *)
Bound == state = "idle" =>
  \A d \in loaded : \A r \in RefsOf(Proj, d) :
     r[2] \in reg \/ (r[2] \in late /\ (r[1] = Top \/ r[2] \notin Registered(Proj, Closure(Proj, d))))
(* A file is opened again only to find that it does not define a name. *)
Once == \A d \in Dirs : opened[d] <= 1 \/ \E e \in Dirs : \E r \in RefsOf(Proj, e) : r[1] = d /\ r[2] \notin Registered(Proj, {d})
Small == Len(stack) <= 3
Ends == <>(state = "bad" \/ (state = "idle" /\ todo = <<>>))
=============================================================================
