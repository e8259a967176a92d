------------------------------ MODULE FabPath ------------------------------
(***************************************************************************)
(* What names of files (and paths to targets) in a YAML file denote.       *)
(*                                                                         *)
(* A path is a sequence of names leading from the root "%B" (a scratch     *)
(* directory in the conformance tests) to a file.  A spelling is a string: *)
(* an absolute one begins with "%B", any other is relative to a directory. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Char(s, i) == SubSeq(s, i, i)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Contains(s, c) == \E i \in 1..Len(s) : Char(s, i) = c

(* The segments of a spelling, some of which may be "", "." or "..". *)
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, i, cur) ==
  IF i > Len(s) THEN <<cur>>
  ELSE IF Char(s, i) = "/" THEN <<cur>> \o SplitFrom(s, i + 1, "")
  ELSE SplitFrom(s, i + 1, cur \o Char(s, i))
Split(s) == SplitFrom(s, 1, "")

(* The path reached from path p by following segments.  (No symlinks.) *)
RECURSIVE Follow(_, _)
Follow(p, segs) ==
  IF segs = <<>> THEN p
  ELSE LET s == Head(segs)
           q == IF s \in {"", "."} THEN p
                ELSE IF s = ".." THEN (IF p = <<>> THEN p ELSE SubSeq(p, 1, Len(p) - 1))
                ELSE Append(p, s)
       IN Follow(q, Tail(segs))

IsAbsolute(s) == StartsWith(s, "%B")

(* The path that spelling s denotes, seen from directory d. *)
Denotes(d, s) == IF IsAbsolute(s) THEN Follow(<<>>, Split(Drop(s, 2))) ELSE Follow(d, Split(s))

RECURSIVE JoinSegs(_)
JoinSegs(p) == IF p = <<>> THEN "" ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o "/" \o JoinSegs(Tail(p))

(* How path p is called, seen from directory d. *)
RECURSIVE RelSegs(_, _)
RelSegs(d, p) ==
  IF d = <<>> THEN p
  ELSE IF p # <<>> /\ Head(d) = Head(p) THEN RelSegs(Tail(d), Tail(p))
  ELSE [i \in 1..Len(d) |-> ".."] \o p
Rel(d, p) == JoinSegs(RelSegs(d, p))

Up(p)   == SubSeq(p, 1, Len(p) - 1)   \* the directory a path is in

(***************************************************************************)
(* Patterns: "*" matches any characters, "?" any one character, a class    *)
(* like "[a-cx]" one of those characters, "[^a-cx]" one of the others, and *)
(* "\" takes the next character's special meaning away.                    *)
(***************************************************************************)
Ascii == "\t\n !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ord(c) == IF \E i \in 1..Len(Ascii) : Char(Ascii, i) = c THEN CHOOSE i \in 1..Len(Ascii) : Char(Ascii, i) = c ELSE 1000

(* One end of a range of a class, at position i. *)
NoEnd == [ok |-> FALSE, c |-> "", next |-> 0]
RangeEnd(pat, i) ==
  IF i > Len(pat) THEN NoEnd
  ELSE IF Char(pat, i) \in {"-", "]"} THEN NoEnd
  ELSE IF Char(pat, i) = "\\" THEN (IF i = Len(pat) THEN NoEnd ELSE [ok |-> TRUE, c |-> Char(pat, i + 1), next |-> i + 2])
  ELSE [ok |-> TRUE, c |-> Char(pat, i), next |-> i + 1]
(* The ranges of a class, from position i on, after others. *)
NoClass == [ok |-> FALSE, next |-> 0, ranges |-> {}]
RECURSIVE Ranges(_, _, _)
Ranges(pat, i, before) ==
  IF i <= Len(pat) /\ before # {} /\ Char(pat, i) = "]" THEN [ok |-> TRUE, next |-> i + 1, ranges |-> before]
  ELSE LET lo == RangeEnd(pat, i) IN
       IF ~lo.ok THEN NoClass
       ELSE IF lo.next <= Len(pat) /\ Char(pat, lo.next) = "-"
       THEN LET hi == RangeEnd(pat, lo.next + 1) IN
            IF ~hi.ok THEN NoClass ELSE Ranges(pat, hi.next, before \cup {<<lo.c, hi.c>>})
       ELSE Ranges(pat, lo.next, before \cup {<<lo.c, lo.c>>})
Negated(pat) == Len(pat) > 1 /\ Char(pat, 2) = "^"
Class(pat) == Ranges(pat, IF Negated(pat) THEN 3 ELSE 2, {})   \* pat begins with "["
InClass(pat, c) == (\E r \in Class(pat).ranges : IF r[1] = r[2] THEN c = r[1] ELSE Ord(r[1]) <= Ord(c) /\ Ord(c) <= Ord(r[2])) # Negated(pat)

(* Is it a pattern at all? *)
RECURSIVE GoodPattern(_)
GoodPattern(pat) ==
  IF pat = "" THEN TRUE
  ELSE CASE Char(pat, 1) = "[" -> IF Class(pat).ok THEN GoodPattern(Drop(pat, Class(pat).next - 1)) ELSE FALSE
         [] Char(pat, 1) = "\\" -> IF Len(pat) = 1 THEN FALSE ELSE GoodPattern(Drop(pat, 2))
         [] OTHER -> GoodPattern(Drop(pat, 1))

RECURSIVE Matches(_, _)
Matches(pat, s) ==
  IF pat = "" THEN s = ""
  ELSE IF Char(pat, 1) = "*" THEN Matches(Drop(pat, 1), s) \/ (s # "" /\ Matches(pat, Drop(s, 1)))
  ELSE IF s = "" THEN FALSE
  ELSE CASE Char(pat, 1) = "?" -> Matches(Drop(pat, 1), Drop(s, 1))
         [] Char(pat, 1) = "[" -> IF InClass(pat, Char(s, 1)) THEN Matches(Drop(pat, Class(pat).next - 1), Drop(s, 1)) ELSE FALSE
         [] Char(pat, 1) = "\\" -> IF Char(pat, 2) = Char(s, 1) THEN Matches(Drop(pat, 2), Drop(s, 1)) ELSE FALSE
         [] OTHER -> IF Char(pat, 1) = Char(s, 1) THEN Matches(Drop(pat, 1), Drop(s, 1)) ELSE FALSE

(* The path whose last segments are patterns that pat stands for, seen    *)
(* from directory d: <<TRUE, s>> is the name s, <<FALSE, s>> the pattern. *)
Pattern(d, pat) ==
  LET names == [i \in 1..Len(d) |-> <<TRUE, d[i]>>]
      segs == Split(IF IsAbsolute(pat) THEN Drop(pat, 2) ELSE pat)
      RECURSIVE Go(_, _)
      Go(p, i) == IF i > Len(segs) THEN p
                  ELSE LET s == segs[i] IN
                       Go(IF s \in {"", "."} THEN p ELSE IF s = ".." THEN (IF p = <<>> THEN p ELSE SubSeq(p, 1, Len(p) - 1)) ELSE Append(p, <<FALSE, s>>), i + 1)
  IN Go(IF IsAbsolute(pat) THEN <<>> ELSE names, 1)

PatternOK(d, pat) == \A i \in 1..Len(Pattern(d, pat)) : Pattern(d, pat)[i][1] \/ GoodPattern(Pattern(d, pat)[i][2])

(* Does path p match the pattern, seen from directory d? *)
PathMatches(q, p) ==
  /\ Len(q) = Len(p)
  /\ \A i \in 1..Len(p) : IF q[i][1] THEN q[i][2] = p[i] ELSE Matches(q[i][2], p[i])
=============================================================================
