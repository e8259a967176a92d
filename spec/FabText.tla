------------------------------ MODULE FabText ------------------------------
(***************************************************************************)
(* Text as a sequence of items: "\n", "\r", and stretches of other text.   *)
(* What an indenting copier makes of it, piece by piece.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Fresh == [bol |-> TRUE, cr |-> FALSE, out |-> ""]  \* at the beginning of a line; a \r is pending; the output

NewLine(s) == [bol |-> TRUE, cr |-> FALSE, out |-> s.out \o "\n"]
FeedItem(s, it, ind) ==
  IF it = "\n" THEN NewLine(s)
  ELSE LET t == IF s.cr THEN NewLine(s) ELSE s IN
       IF it = "\r" THEN [t EXCEPT !.cr = TRUE]
       ELSE [t EXCEPT !.out = @ \o (IF t.bol THEN ind ELSE "") \o it, !.bol = FALSE]
Feed(s, items, ind) == FoldLeft(LAMBDA st, it : FeedItem(st, it, ind), s, items)

RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE "  " \o Spaces(n - 1)
Indent(depth, prefix) == Spaces(depth) \o prefix

RECURSIVE Plain(_)
Plain(items) == IF items = <<>> THEN "" ELSE Head(items) \o Plain(Tail(items))

(* Put differently: every \r\n and every other \r (but a last one, which *)
(* may be the first half of \r\n) is \n, and the indentation precedes    *)
(* what begins a line.                                                   *)
Emits(t, i, ind) ==
  IF t[i] = "\n" THEN "\n"
  ELSE IF t[i] = "\r" THEN (IF i = Len(t) \/ t[i + 1] = "\n" THEN "" ELSE "\n")
  ELSE (IF i = 1 \/ t[i - 1] \in {"\n", "\r"} THEN ind ELSE "") \o t[i]
RECURSIVE DeclFrom(_, _, _)
DeclFrom(t, i, ind) == IF i > Len(t) THEN "" ELSE Emits(t, i, ind) \o DeclFrom(t, i + 1, ind)
Decl(t, ind) == DeclFrom(t, 1, ind)
=============================================================================
