------------------------------ MODULE MC_Arrays ------------------------------
(* Which items of an array does the tree view show?  All shapes and limits.      *)
EXTENDS Naturals, Sequences, TLC, Json, FiniteSets
VARIABLES limit, shape
T == INSTANCE Tree WITH Limit <- limit

Dims == 0..7
Shapes == { <<a>> : a \in 0..12 } \cup { <<a, b>> : a \in Dims, b \in Dims } \cup
          { <<a, b, c>> : a \in {0, 1, 2, 6}, b \in {1, 3, 7}, c \in {0, 1, 2, 6} } \cup
          { <<a, b, 1, c>> : a \in {1, 2, 6}, b \in {1, 2}, c \in {1, 6} } \cup { <<1, 2, 1, 2, 6>> } \cup
          { <<a, b, c, d>> : a \in {0, 1, 2, 7}, b \in {0, 1, 2}, c \in {0, 1}, d \in {0, 1, 3} } \cup
          { <<a, b, 1, c, d>> : a \in {1, 2}, b \in {0, 1}, c \in {0, 2}, d \in {0, 1} } \cup
          { <<2, 1, 1, 1, 0, 1>>, <<1, 0, 1, 1, 1, 1>>, <<0, 1, 1, 1, 1, 1>>, <<1, 1, 1, 1, 1, 1>>, <<1, 1, 1, 1, 1, 1, 2>>, <<3, 1, 1, 1, 1, 1, 1, 1>> }
Init == limit \in 0..8 /\ shape = <<>>
Next == shape = <<>> /\ shape' \in Shapes /\ UNCHANGED limit
Spec == Init /\ [][Next]_<<limit, shape>>

Q == T!Shown(shape[1])
Items == { i \in DOMAIN Q : Q[i] # 0 }
\* arrays are shown when more than 2 items may be shown
Judged == shape # <<>> /\ limit > 2
AllIfFew == Judged => (shape[1] <= limit => Q = [i \in 1..shape[1] |-> i])
FirstAndLast == Judged => (shape[1] > limit =>
    /\ Q[1] = 1 /\ Q[Len(Q)] = shape[1]
    /\ \E i \in DOMAIN Q : Q[i] = 0)
InOrder == Judged => \A i, j \in Items : i < j => Q[i] < Q[j]
NeverMore == Judged => Cardinality(Items) <= limit
MarkOnce == Judged => Cardinality(DOMAIN Q \ Items) = (IF shape[1] > limit THEN 1 ELSE 0)
Export == (shape # <<>> /\ limit = 5) => PrintT("@@" \o ToJson(shape))
==============================================================================
