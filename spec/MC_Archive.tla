----------------------------- MODULE MC_Archive -----------------------------
(* All entry names made of these parts, each put in an archive.                   *)
EXTENDS Archive, Json, IOUtils, TLC, SequencesExt
Tops == {"definitions-x", "other"}
Folders == {"", "base_classes/", "applications/", "contributed_definitions/", "manual/", "manual/base_classes/",
            "base_classes/sub/", "../base_classes/", "./applications/", "/base_classes/", "definitions-x/", "base_classes/../", "Base_classes/"}
Leafs == {"a.nxdl.xml", "nxdl.xsd", "t.xsl", "readme.md", ".xml", "x.XML", "noext", "a.xml.bak", "b.xml.", ""}
More == {"../x.xml", "x.xml", "base_classes/x.xml", "/definitions-x/base_classes/r.xml", "../definitions-x/base_classes/u.xml",
         "definitions-x", "../../base_classes/v.xml", "./definitions-x/w.xsd"}
Names == { t \o "/" \o f \o l : t \in Tops, f \in Folders, l \in Leafs } \cup More
E(n, i) == [name |-> n, c |-> "c" \o ToString(i), date |-> <<2000 + i, 1 + ((i * 5) % 12), i + 1, i, 59, 2 * i>>]
Base == << E("definitions-x/", 1), E("definitions-x/nxdl.xsd", 7), E("definitions-x/base_classes/NXa.nxdl.xml", 3) >>
VARIABLE a
Init == a \in { <<E(n, 4)>> : n \in Names }
              \cup { << E(n, 4) >> \o Base : n \in Names }
              \cup { Base \o << E(n, 9) >> : n \in Names }
              \cup { << E(n, 4), E(m, 5) >> : n \in Names, m \in { "definitions-x/applications/k.xml", "other/nxdl.xsd", "definitions-x/nxdl.xsd" } }
Next == UNCHANGED a
Spec == Init /\ [][Next]_a
Contained == \A i \in DOMAIN a : \A s \in SeqRange(Place(a[i].name)) : s # ".." /\ s # "."
FilesTaken == \A f \in FilesOf(a) : \E i \in TakenOf(a) : a[i].c = f.c
EnoughHasFiles == Enough(a) => FilesOf(a) # {}
OnePlace == \A f, g \in FilesOf(a) : f.p = g.p => f = g
Export == PrintT("@@" \o ToJson(a))
=============================================================================
