------------------------------- MODULE Text -------------------------------
(* Text as TLC strings: the few operations which the NeXus rules need.     *)
EXTENDS Naturals, Sequences, FiniteSets
LOCAL INSTANCE SequencesExt

Ch(s, i) == SubSeq(s, i, i)

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

HasText(s, p) == \E i \in 1..(Len(s) + 1 - Len(p)) : SubSeq(s, i, i + Len(p) - 1) = p

\* the parts of s between the characters c; Split("a/b", "/") = <<"a", "b">>
Split(s, c) ==
  LET at == SetToSortSeq({ i \in 1..Len(s) : Ch(s, i) = c }, LAMBDA x, y : x < y)
  IN [ k \in 1..(Len(at) + 1) |-> SubSeq(s, IF k = 1 THEN 1 ELSE at[k - 1] + 1, IF k > Len(at) THEN Len(s) ELSE at[k] - 1) ]

RECURSIVE StripRight(_, _)
StripRight(s, c) ==
  IF Len(s) > 0 /\ Ch(s, Len(s)) = c THEN StripRight(SubSeq(s, 1, Len(s) - 1), c) ELSE s

RECURSIVE StripLeft(_, _)
StripLeft(s, c) ==
  IF Len(s) > 0 /\ Ch(s, 1) = c THEN StripLeft(SubSeq(s, 2, Len(s)), c) ELSE s

RECURSIVE Join(_, _)
Join(parts, sep) ==
  IF Len(parts) = 0 THEN ""
  ELSE IF Len(parts) = 1 THEN parts[1]
  ELSE parts[1] \o sep \o Join(Tail(parts), sep)

Digits  == {"0","1","2","3","4","5","6","7","8","9"}
Lower   == {"a","b","c","d","e","f","g","h","i","j","k","l","m",
            "n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper   == {"A","B","C","D","E","F","G","H","I","J","K","L","M",
            "N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Letters == Lower \cup Upper

AllIn(s, from, chars) == \A i \in from..Len(s) : Ch(s, i) \in chars

\* the number that is written with these digits
DigitValue == [ d \in Digits |-> CHOOSE i \in 0..9 : <<"0","1","2","3","4","5","6","7","8","9">>[i + 1] = d ]
RECURSIVE Number(_)
Number(s) == IF Len(s) = 0 THEN 0 ELSE 10 * Number(SubSeq(s, 1, Len(s) - 1)) + DigitValue[Ch(s, Len(s))]

SeqRange(q) == { q[i] : i \in DOMAIN q }
============================================================================
