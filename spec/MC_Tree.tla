------------------------------- MODULE MC_Tree -------------------------------
(* The tree view on the universe of all small graphs of links: it ends, shows    *)
(* every link of every group it opens, and opens no group within itself.         *)
EXTENDS MC_Universe
TV == INSTANCE Tree WITH Limit <- 5

\* the recording which the tree view needs, from a graph
Full(f) == [ f EXCEPT !.nodes = [ i \in DOMAIN f.nodes |->
               LET x == f.nodes[i]
               IN [ k |-> x.k, at |-> x.at, root |-> x.root, fv |-> x.fv,
                    links |-> [ j \in DOMAIN x.links |->
                      [ n |-> x.links[j].n, to |-> x.links[j].to, t |-> IF x.links[j].to = 0 THEN "s" ELSE "h",
                        p |-> "/not/available", f |-> "", xn |-> "" ] ],
                    by |-> [ j \in DOMAIN x.links |-> j ],   \* links of the universe are in order
                    ao |-> [ j \in DOMAIN x.at |-> j ],
                    ds |-> [ kind |-> "O", dt |-> "object", DT |-> "OBJECT", sp |-> TRUE, shape |-> <<>>, els |-> <<>>,
                             one |-> "", whole |-> x.fv.s, size |-> <<>> ] ] ] ]

VARIABLES view
TInit == UInit /\ view = <<>>
TNext == /\ pc = "new" /\ view' = TV!TreeLines(Full(file), "file", FALSE) /\ pc' = "shown"
         /\ UNCHANGED <<file, items, found>>
TSpec == TInit /\ [][TNext]_<<vvars, view>>

\* links of the groups which are opened, each along a path without repeated groups
RECURSIVE Seen(_, _, _)
Seen(f, n, up) ==
  LET lks == Obj(f, n).links
      Sub(i) == IF lks[i].to # 0 /\ IsGroup(f, lks[i].to) /\ lks[i].to \notin (up \cup {n})
                THEN Seen(f, lks[i].to, up \cup {n}) ELSE 0
  IN Len(lks) + FoldLeft(LAMBDA acc, i : acc + Sub(i), 0, [i \in DOMAIN lks |-> i])

EveryLinkOnce == pc = "shown" => Len(view) = 1 + Seen(file, 1, {})
TExport == pc = "new" => PrintT("@@" \o ToJson(file))
==============================================================================
