---------------------------- MODULE FabMainImpl ----------------------------
(***************************************************************************)
(* How the command line of fab gets to a driver: fab's own is parsed as    *)
(* Go's flag package does, a command line for the driver made from the     *)
(* result, and that parsed in the same way.  Whatever it is, a driver and  *)
(* driverless mode see the same modes and words (property C23).            *)
(* Dashes: "--" separates flags from words.                                *)
(***************************************************************************)
EXTENDS FabPath, TLC
CONSTANTS MaxLen, Dashes

Alphabet == {"-v", "-f", "-n", "-list", "-fab", "dir", "--", "-x", "-", "A", "-v=false", "--f", "-top"}
Bools(driver) == {"v", "f", "n", "list"}
Strings(driver) == IF driver THEN {"fab", "top"} ELSE {"fab"}

Init0 == [ok |-> TRUE, v |-> FALSE, f |-> FALSE, n |-> FALSE, list |-> FALSE, fab |-> "default", top |-> "", words |-> <<>>]
Set(r, name, val) ==
  CASE name = "v" -> [r EXCEPT !.v = val] [] name = "f" -> [r EXCEPT !.f = val] [] name = "n" -> [r EXCEPT !.n = val] [] OTHER -> [r EXCEPT !.list = val]
SetStr(r, name, val) == IF name = "fab" THEN [r EXCEPT !.fab = val] ELSE [r EXCEPT !.top = val]
Flag(a) == IF a = "--f" THEN "f" ELSE IF a = "-v=false" THEN "v" ELSE Drop(a, 1)

RECURSIVE Parse(_, _, _)
Parse(driver, args, r) ==
  IF args = <<>> THEN r
  ELSE LET a == Head(args) IN
       IF a = "--" THEN [r EXCEPT !.words = Tail(args)]
       ELSE IF ~StartsWith(a, "-") \/ a = "-" THEN [r EXCEPT !.words = args]
       ELSE IF Flag(a) \in Bools(driver) THEN Parse(driver, Tail(args), Set(r, Flag(a), a # "-v=false"))
       ELSE IF Flag(a) \in Strings(driver)
            THEN IF Len(args) = 1 THEN [r EXCEPT !.ok = FALSE] ELSE Parse(driver, SubSeq(args, 3, Len(args)), SetStr(r, Flag(a), args[2]))
       ELSE [r EXCEPT !.ok = FALSE]

Forward(r) ==
  <<"-fab", r.fab, "-top", "TOP">>
  \o (IF r.v THEN <<"-v">> ELSE <<>>) \o (IF r.list THEN <<"-list">> ELSE <<>>) \o (IF r.f THEN <<"-f">> ELSE <<>>) \o (IF r.n THEN <<"-n">> ELSE <<>>)
  \o (IF Dashes THEN <<"--">> ELSE <<>>) \o r.words

VARIABLE line
Init == line = <<>>
Next == Len(line) < MaxLen /\ \E a \in Alphabet : line' = Append(line, a)
Spec == Init /\ [][Next]_line

Driverless == Parse(FALSE, line, Init0)
Driver == Parse(TRUE, Forward(Driverless), Init0)
Same == Driverless.ok => Driver = [Driverless EXCEPT !.top = "TOP"]
=============================================================================
