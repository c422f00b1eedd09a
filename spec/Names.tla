------------------------------- MODULE Names -------------------------------
(* The names which NeXus accepts.  WordChars: the characters beyond ASCII    *)
(* that are letters or digits (a name may contain any letter, not only a-z). *)
(* ItemPatterns, ClassPatterns: the patterns validItemName and               *)
(* validNXClassName as they are written in the schema nxdl.xsd in use.       *)
EXTENDS Text, SequencesExt, TLC
CONSTANTS WordChars, ItemPatterns, ClassPatterns

(* ------------------------------------------------- patterns of XML schema *)
\* a pattern is a set of sequences of atoms; an atom is one character of a set (or not of
\* it), or a pattern, and may be repeated
Word == Letters \cup Digits \cup {"_"} \cup WordChars
AsciiOrder == "-._0123456789:ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
Place(c) == CHOOSE i \in 1..Len(AsciiOrder) : Ch(AsciiOrder, i) = c
Between(a, b) == { Ch(AsciiOrder, i) : i \in Place(a)..Place(b) }
Escaped(c) == CASE c = "w" -> Word [] c = "d" -> Digits [] OTHER -> {c}

RECURSIVE SetAt(_, _, _)
SetAt(p, i, acc) ==                     \* [...], from i
  IF Ch(p, i) = "]" THEN [set |-> acc, to |-> i + 1]
  ELSE IF Ch(p, i) = "\\" THEN SetAt(p, i + 2, acc \cup Escaped(Ch(p, i + 1)))
  ELSE IF i + 2 <= Len(p) /\ Ch(p, i + 1) = "-" /\ Ch(p, i + 2) # "]"
       THEN SetAt(p, i + 3, acc \cup Between(Ch(p, i), Ch(p, i + 2)))
  ELSE SetAt(p, i + 1, acc \cup {Ch(p, i)})

RECURSIVE PatternAt(_, _, _, _)
PatternAt(p, i, alts, seq) ==
  IF i > Len(p) THEN [alts |-> alts \cup {seq}, to |-> i]
  ELSE IF Ch(p, i) = ")" THEN [alts |-> alts \cup {seq}, to |-> i + 1]
  ELSE IF Ch(p, i) = "|" THEN PatternAt(p, i + 1, alts \cup {seq}, <<>>)
  ELSE LET c == Ch(p, i)
           a == CASE c = "(" -> LET g == PatternAt(p, i + 1, {}, <<>>)
                                IN [k |-> "group", alts |-> g.alts, set |-> {}, to |-> g.to]
                  [] c = "[" -> LET neg == Ch(p, i + 1) = "^"
                                    g == SetAt(p, IF neg THEN i + 2 ELSE i + 1, {})
                                IN [k |-> IF neg THEN "not" ELSE "in", alts |-> {}, set |-> g.set, to |-> g.to]
                  [] c = "." -> [k |-> "not", alts |-> {}, set |-> {"\n"}, to |-> i + 1]
                  [] c = "\\" -> [k |-> "in", alts |-> {}, set |-> Escaped(Ch(p, i + 1)), to |-> i + 2]
                  [] OTHER -> [k |-> "in", alts |-> {}, set |-> {c}, to |-> i + 1]
           q == IF a.to <= Len(p) /\ Ch(p, a.to) \in {"*", "+", "?"} THEN Ch(p, a.to) ELSE "1"
       IN PatternAt(p, IF q = "1" THEN a.to ELSE a.to + 1, alts,
                    Append(seq, [k |-> a.k, alts |-> a.alts, set |-> a.set, q |-> q]))
Pattern(p) == PatternAt(p, 1, {}, <<>>).alts

\* where a match of a pattern may end, which starts at one of the places J of s
RECURSIVE MatchEnds(_, _, _), MatchSeq(_, _, _, _), MatchMany(_, _, _)
MatchOnce(a, s, J) ==
  CASE a.k = "in"  -> { j + 1 : j \in { i \in J : i <= Len(s) /\ Ch(s, i) \in a.set } }
    [] a.k = "not" -> { j + 1 : j \in { i \in J : i <= Len(s) /\ Ch(s, i) \notin a.set } }
    [] OTHER -> MatchEnds(a.alts, s, J)
MatchMany(a, s, J) ==
  IF a.k = "group" THEN LET K == J \cup MatchOnce(a, s, J) IN IF K = J THEN J ELSE MatchMany(a, s, K)
  ELSE \* the same for single characters, without a loop: texts may be long
       LET fits(i) == i \in 1..Len(s) /\ (Ch(s, i) \in a.set) = (a.k = "in")
           first == { j \in J : ~(j - 1 \in J /\ fits(j - 1)) }
       IN UNION { j..(CHOOSE e \in j..(Len(s) + 1) : ~fits(e) /\ \A i \in j..(e - 1) : fits(i)) : j \in first }
MatchSeq(q, i, s, J) ==
  IF J = {} \/ i > Len(q) THEN J
  ELSE LET a == q[i]
       IN MatchSeq(q, i + 1, s,
            CASE a.q = "1" -> MatchOnce(a, s, J)
              [] a.q = "?" -> J \cup MatchOnce(a, s, J)
              [] a.q = "*" -> MatchMany(a, s, J)
              [] a.q = "+" -> MatchMany(a, s, MatchOnce(a, s, J)))
MatchEnds(alts, s, J) == UNION { MatchSeq(q, 1, s, J) : q \in alts }
Matches(pattern, s) == Len(s) + 1 \in MatchEnds(pattern, s, {1})

(* ------------------------------------------------------------------ names *)
\* the strict pattern, [a-z_][a-z0-9_]*, all of the text
Strict(s) ==
  /\ Len(s) > 0
  /\ Ch(s, 1) \in Lower \cup {"_"}
  /\ AllIn(s, 2, Lower \cup Digits \cup {"_"})

Compiled(ps) == TLCEval({ TLCEval(Pattern(p)) : p \in SeqRange(ps) })
ItemNames == TLCEval(Compiled(ItemPatterns))
ClassNames == TLCEval(Compiled(ClassPatterns))

\* the pattern validItemName of nxdl.xsd, [A-Za-z_][\w_]* in the shipped ones, all of the text
Relaxed(s) == \E p \in ItemNames : Matches(p, s)
ItemName(s) == Strict(s) \/ Relaxed(s)
NameGrade(s) == IF Strict(s) THEN "OK" ELSE IF Relaxed(s) THEN "NOTE" ELSE "ERROR"

\* the patterns validNXClassName of nxdl.xsd (NX.+ in the shipped ones) and its base, validItemName
ClassName(s) == \E p \in ClassNames : Matches(p, s)

\* text of the number one: decimal digits (only)
NumberOne(s) ==
  /\ Len(s) > 0 /\ AllIn(s, 1, Digits)
  /\ StripLeft(s, "0") = "1"
============================================================================
