---------------------------- MODULE FabDepsImpl ----------------------------
(***************************************************************************)
(* proto.Deps as implemented: a depth-first search that keeps a set of the *)
(* names found so far and looks for each import in one include directory   *)
(* after another.  It terminates, having found what FabDeps says.          *)
(*                                                                         *)
(* A constant per mistake, to see that the model tells them apart:         *)
(*   Retry: an import that was found before is looked for in the remaining *)
(*   directories (as fab once did).                                        *)
(***************************************************************************)
EXTENDS FabDeps, TLC

CONSTANTS Paths, Names, MaxImports, MaxIncs, Retry
VARIABLES incs, start, found, stack

ivars == <<pid, fs, built, incs, start, found, stack>>

SmallPaths == {<<"a">>, <<"b">>, <<"i", "a">>}
BigPaths == SmallPaths \cup {<<"i", "b">>}

Content == [imports : {s \in UNION {[1..n -> Names] : n \in 0..MaxImports} : TRUE}]
IncDirs == {<<>>, <<"i">>}

Init ==
  /\ pid = 0 /\ built = {}
  /\ \E S \in SUBSET Paths : fs \in [S -> Content]
  /\ incs \in UNION {[1..n -> IncDirs] : n \in 0..MaxIncs}
  /\ start \in DOMAIN fs
  \* The file may be given by a name that no include directory leads to.
  /\ found \in {{start}, {<<"alias">>}}
  /\ stack = <<[names |-> fs[start].imports, i |-> 1]>>

Top_ == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)

Next ==
  /\ stack # <<>>
  /\ UNCHANGED <<pid, fs, built, incs, start>>
  /\ IF Top_.names = <<>> THEN stack' = Rest /\ UNCHANGED found
     ELSE LET skip == Append(Rest, [names |-> Tail(Top_.names), i |-> 1]) IN
          IF Top_.i > Len(incs) THEN stack' = skip /\ UNCHANGED found
          ELSE LET full == Follow(incs[Top_.i], Split(Head(Top_.names)))
                   again == Append(Rest, [Top_ EXCEPT !.i = @ + 1])
               IN IF full \in found THEN stack' = (IF Retry THEN again ELSE skip) /\ UNCHANGED found
                  ELSE IF full \notin DOMAIN fs THEN stack' = again /\ UNCHANGED found
                  ELSE /\ found' = found \cup {full}
                       /\ stack' = Append(skip, [names |-> fs[full].imports, i |-> 1])

Spec == Init /\ [][Next]_ivars /\ WF_ivars(Next)

Meant == IF <<"alias">> \in found THEN (found \ {<<"alias">>}) \cup {start} ELSE found
Right == stack = <<>> => Meant = ProtoDeps(fs, incs, start)
Ends == <>(stack = <<>>)
NoDeeper == Len(stack) <= Cardinality(DOMAIN fs) + 1
=============================================================================
