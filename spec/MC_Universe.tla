----------------------------- MODULE MC_Universe -----------------------------
(* Small universes of data files: TLC enumerates all files of a universe, runs   *)
(* the validation on each, checks what must hold in every state, and prints the   *)
(* files, which are then replayed with the implementation.                        *)
EXTENDS Validator, Json, IOUtils

FileSet == JsonDeserialize(IOEnv.FACTS)
Facts == FileSet.defs
UItemPatterns == FileSet.item
UClassPatterns == FileSet.class
UDefs == TLCEval([ c \in DOMAIN Facts |-> TLCEval(LoadDefinition(Facts[c])) ])
UWordChars == {"é", "β"}
Which == IOEnv.WHICH

Txt(s) == [k |-> "text", s |-> s, l |-> << [k |-> "t", s |-> s] >>]
Lst(q) == [k |-> "list", s |-> "list", l |-> [i \in DOMAIN q |-> [k |-> "t", s |-> q[i]]]]
Num(s) == [k |-> "other", s |-> s, l |-> << [k |-> "o", s |-> ""] >>]
Nil    == [k |-> "none", s |-> "None", l |-> << [k |-> "o", s |-> ""] >>]
NoFv   == [has |-> FALSE, s |-> ""]

A(n, v) == [n |-> n, v |-> v]
L(n, to) == [n |-> n, to |-> to]
\* attributes and links are kept in the order of HDF5 (by name)
G(at, links) == [k |-> "g", links |-> links, at |-> at, root |-> 1, fv |-> NoFv]
D(at, s) == [k |-> "d", links |-> <<>>, at |-> at, root |-> 1, fv |-> [has |-> TRUE, s |-> s]]
T(at) == [k |-> "t", links |-> <<>>, at |-> at, root |-> 1, fv |-> NoFv]
Cls(c) == A("NX_class", Txt(c))
File(nodes) == [openable |-> TRUE, nodes |-> nodes]

Opt(name, v) == IF v = "-" THEN <<>> ELSE << A(name, Txt(v)) >>
OptL(name, to) == IF to < 0 THEN <<>> ELSE << L(name, to) >>

(* -- links: all graphs of root, two groups and a dataset; 0: not available, -1: no link *)
LinksU ==
  { File(<< G(<<>>, <<L("a", 2)>> \o OptL("b", b)),
            G(<<Cls("NXentry")>>, OptL("a", c) \o OptL("b", d)),
            G(x, OptL("a", e) \o OptL("b", f)),
            D(<< A("units", Txt("m")) >>, "5") >>) :
      b \in {-1, 0, 1, 2, 3, 4}, c \in {-1, 0, 1, 2, 3, 4}, d \in {-1, 1, 2, 3, 4}, e \in {-1, 0, 1, 2, 3, 4},
      f \in {-1, 2, 3},
      x \in { << Cls("NXdata") >>, <<>> } }

(* -- names: all texts up to length 3 over an alphabet; a file has the names of one prefix *)
Alphabet == {"a", "Z", "_", "1", "-", "é", " ", "\n"}
Names3(x, y) == { x \o y \o z : z \in Alphabet \cup {""} }
NameFile(x, y, in) ==
  LET q == SetToSortSeq(Names3(x, y) \ {""}, LAMBDA u, v : u # v /\ TRUE)
      n == Len(q)
  IN File(<< G(<<Cls("NXroot")>>, << L("e", 2) >>),
             G(<< Cls(in) >>, [i \in 1..n |-> L(q[i], 2 + i)]) >>
          \o [i \in 1..n |-> IF i % 3 = 0 THEN G(<< Cls("NXnote") >>, <<>>)
                              ELSE IF i % 3 = 1 THEN D(<< A(q[i], Txt("x")) >>, "1") ELSE G(<<>>, <<>>)])
NamesU == { NameFile(x, y, in) : x \in Alphabet, y \in Alphabet \cup {""}, in \in {"NXentry", "NXcollection", "none"} }

(* -- classes: NX_class texts at two levels, any of the definitions *)
ClassTexts == (DOMAIN Facts) \cup {"", "NX", "NXfoo", "nxdata", "NXdata/", "SDS", "NXdata ", "entry", "NXentry/NXdata"}
ClassesU ==
  { File(<< G(<<>>, <<L("g", 2)>>), G(<< Cls(c) >>, << L("data", 3), L("x", 4) >>), G(<< Cls(d) >>, <<>>), D(<<>>, "1") >>) :
      c \in ClassTexts, d \in {"NXdata", "none"} }
  \cup { File(<< G(<< A("NX_class", v) >>, <<L("g", 2)>>), G(<< A("NX_class", v) >>, << L("x", 3) >>), D(<< A("NX_class", v) >>, "1") >>) :
      v \in { Txt("NXroot"), Txt("NXentry"), Txt("NXdata"), Num("5"), Nil, Lst(<<"NXentry">>), Lst(<<"NXentry", "NXdata">>), Txt("") } }

(* -- contents: children and attributes of one group of each class, chosen from the definition *)
Some(S, n) == LET q == SetToSeq(S) IN { q[i] : i \in 1..(IF Len(q) < n THEN Len(q) ELSE n) }
ContentsFile(c, kind, extra) ==
  LET d == UDefs[c]
      fields == { x \in FieldNames(d) : ~HasText(x, "/") /\ x # "" }
      grps   == { x \in GroupNames(d) : ~HasText(x, "/") /\ x # "" }
      names == IF kind = "fields" THEN fields ELSE IF kind = "groups" THEN grps ELSE fields \cup grps
      q == SetToSeq(names \cup (IF extra THEN {"extra"} ELSE {}))
  IN File(<< G(<<>>, << L("g", 2) >>), G(<< Cls(c) >>, [i \in DOMAIN q |-> L(q[i], 2 + i)]) >>
          \o [i \in DOMAIN q |-> IF (kind = "groups") THEN G(<< Cls("NXnote") >>, <<>>)
                                 ELSE IF kind = "swap" /\ q[i] \in fields THEN G(<<>>, <<>>) ELSE D(<<>>, "1")])
AttributesFile(c, extra) ==
  LET d == UDefs[c]
      as == { d.raw.at[i] : i \in DOMAIN d.raw.at }
      one(a) == A(a.n, Txt(IF a.n \in {"signal", "default"} THEN (IF extra THEN "no" ELSE "x")
                           ELSE IF a.n = "target" THEN (IF extra THEN "/g/no" ELSE "/g/x")
                           ELSE IF a.en = <<>> THEN "text" ELSE IF extra THEN Head(a.en) \o "?" ELSE Last(a.en)))
      q == SetToSeq({ one(a) : a \in { b \in as : b.n # "NX_class" } })
  IN File(<< G(<<>>, << L("g", 2) >>),
             G(<< Cls(c) >> \o q \o << A("zzz", Num("3")) >>, << L("x", 3) >>), D(<< A("units", Txt("m")) >>, "1") >>)
ContentsU ==
  { ContentsFile(c, kind, extra) : c \in DOMAIN Facts, kind \in {"fields", "groups", "swap"}, extra \in BOOLEAN }
  \cup { AttributesFile(c, extra) : c \in DOMAIN Facts, extra \in BOOLEAN }

(* -- paths: @signal, @axes, @target as paths, in a group and in a dataset *)
Parts == {"", "x", "g", "no", "1", "."}
PathTexts == Parts \cup { a \o "/" \o b : a \in Parts, b \in Parts } \cup { "/g/" \o b : b \in Parts }
PathsU ==
  { File(<< G(IF at = "rt" THEN << A("target", Txt(p)) >> ELSE IF at = "rs" THEN << A("signal", Txt(p)) >> ELSE <<>>, << L("g", 2), L("x", 5) >>),
            G((IF at = "axes" THEN << A("axes", Txt(p)) >> ELSE IF at = "laxes" THEN << A("axes", Lst(<<p, "x", p>>)) >>
               ELSE IF at = "signal" THEN << A("signal", Txt(p)) >> ELSE IF at = "target" THEN << A("target", Txt(p)) >> ELSE <<>>)
              \o << Cls("NXdata") >>, << L("1", 5), L("g", 3), L("no", 0), L("x", 4) >>),
            G(<< Cls("NXlog") >>, << L("g", 2), L("x", 4) >>),
            D(IF at \in {"daxes", "dsignal", "dtarget"} THEN << A(SubSeq(at, 2, Len(at)), Txt(p)) >> ELSE <<>>, "1"),
            D(<<>>, "2") >>) :
      p \in PathTexts, at \in {"axes", "laxes", "signal", "target", "daxes", "dsignal", "dtarget", "rt", "rs"} }

(* -- default plot: entries e & f, data groups d & c, fields y & z *)
PlotU ==
  { File(<< G(Opt("default", rd), << L("e", 2) >> \o (IF two = "-" THEN <<>> ELSE << L("f", 7) >>)),
            G(<< Cls("NXentry") >> \o Opt("default", ed), << L("c", 4), L("d", 3) >>),
            G(<< Cls("NXdata") >> \o Opt("signal", ds), << L("y", 5) >>),
            G(<< Cls("NXdata") >> \o Opt("signal", cs), << L("y", 5), L("z", 6) >>),
            D(Opt("signal", y1), "1"),
            IF zg THEN G(<< Cls("NXlog") >>, <<>>) ELSE D(Opt("signal", z1), "1"),
            G(<< Cls("NXentry") >> \o (IF two = "n" THEN << A("default", Txt("d")) >> ELSE <<>>), << L("d", 8) >>),
            G(<< Cls("NXdata"), A("signal", Txt("y")) >>, << L("y", 9) >>), D(<<>>, "1") >>) :
      rd \in {"-", "e", "f"}, ed \in {"-", "d", "c", "x"}, ds \in {"-", "y", "x"}, cs \in {"-", "z", "x"},
      y1 \in {"-", "1", "2"}, z1 \in {"-", "1"}, zg \in BOOLEAN, two \in {"-", "y", "n"} }

(* -- application definitions: presence and values of the declared fields *)
AppDefs == { c \in DOMAIN Facts : UDefs[c].cat # "base_classes" }
AppFile(c, miss, val, sub) ==
  LET d == UDefs[c]
      fs == IF Len(d.in.groups) = 0 THEN <<>> ELSE d.in.groups[1].in.fields
      use == SelectSeq([i \in DOMAIN fs |-> [n |-> fs[i].n, en |-> fs[i].raw.en, i |-> i]],
               LAMBDA x : x.n # "definition" /\ x.n # "" /\ ~HasText(x.n, "/") /\ (miss = "none" \/ (miss = "odd" /\ x.i % 2 = 1) \/ (miss = "even" /\ x.i % 2 = 0)))
      n == Len(use)
      text(x) == IF x.en = <<>> THEN "text" ELSE IF val = "first" THEN Head(x.en) ELSE IF val = "last" THEN Last(x.en) ELSE "bad"
      e == IF sub THEN 3 ELSE 2
      grp == G(<< Cls(IF sub THEN "NXsubentry" ELSE "NXentry") >>, << L("definition", e + 1) >> \o [i \in 1..n |-> L(use[i].n, e + 1 + i)])
  IN File(<< G(<<>>, << L("entry", 2) >>) >>
          \o (IF sub THEN << G(<< Cls("NXentry") >>, << L("sub", 3) >>) >> ELSE <<>>)
          \o << grp, D(<<>>, c) >>
          \o [i \in 1..n |-> D(<<>>, text(use[i]))])
AppDefU == { AppFile(c, miss, val, sub) : c \in AppDefs, miss \in {"none", "all", "odd", "even"},
                                          val \in {"first", "last", "bad"}, sub \in BOOLEAN }

Universe ==
  CASE Which = "links" -> LinksU [] Which = "names" -> NamesU [] Which = "classes" -> ClassesU
    [] Which = "contents" -> ContentsU [] Which = "paths" -> PathsU [] Which = "plot" -> PlotU
    [] Which = "appdef" -> AppDefU

UInit == \E f \in Universe : VInit(f)
USpec == UInit /\ [][VNext]_vvars /\ WF_vvars(VNext)

(* ------------------------------------------ what must hold in every state *)
At(S, a) == { x \in S : x.a = a }

\* every object that can be reached (without walking through a group twice) has an item, once per address
RECURSIVE Reach(_, _, _, _)
Reach(f, n, a, up) ==
  { [a |-> a, nd |-> n] } \cup
  (IF IsGroup(f, n) /\ n \notin up
   THEN UNION { Reach(f, Obj(f, n).links[i].to, Under(a, Obj(f, n).links[i].n), up \cup {n})
                : i \in { j \in DOMAIN Obj(f, n).links : Obj(f, n).links[j].to # 0 } }
   ELSE {})
CatalogComplete ==
  pc = "cataloged" =>
    LET want == Reach(file, 1, "/", {})
        objs == SelectSeq(items, IsObject)
    IN /\ { [a |-> objs[i].a, nd |-> objs[i].nd] : i \in DOMAIN objs } = want
       /\ Len(objs) = Cardinality(want)
       /\ \A i \in DOMAIN items : items[i].at > 0 => items[i].at \in DOMAIN Obj(file, items[i].nd).at

\* content of non-NeXus groups is never given a class path, and no NeXus content is lost
ClassPathsHonest ==
  pc = "cataloged" => \A i \in DOMAIN items :
    items[i].cp = NonNeXus \/ \A j \in DOMAIN items[i].up \ {1} : IsNeXusGroup(file, items[i].up[j])

\* items with an address get at most one verdict about their name
OneNameVerdict ==
  pc \in {"names", "done"} =>
    \A x \in found : x.t = "validItemName" =>
      /\ \A y \in found : (y.a = x.a /\ y.t = x.t) => y = x
      /\ x.n = 1

\* a name that is accepted without remark is accepted by the relaxed rule, too
StrictIsRelaxed ==
  pc = "cataloged" => \A i \in DOMAIN items : Strict(items[i].nm) => Relaxed(items[i].nm)

\* findings are about items of the file only
FindingsHaveItems ==
  pc = "done" => \A x \in found : \E i \in DOMAIN items : items[i].a = x.a

\* exactly one conclusion about the default plot, after all candidates were reviewed
OnePlotConclusion ==
  pc = "done" => Cardinality({ x \in found : x.t = "NeXus default plot" }) = 1
PlotConclusionOK ==
  pc = "done" => \A x \in found : x.t = "NeXus default plot" /\ x.s = "OK" => x.k # "" /\
    \E y \in found : StartsWith(y.t, "NeXus default plot ") /\ y.s = "OK"

\* an entry that declares a definition is told whether it is known
DeclarationsAnswered ==
  pc = "done" => \A i \in DOMAIN items : IsDeclaration(items[i]) =>
     \E x \in found : x.a = ParentAddress(items[i].a) /\ x.t = "known NXDL"

Score ==
  pc = "done" => /\ (ScoreErrors(found) > 0) <=> (\E x \in found : x.s = "ERROR")
                 /\ ScoreCount(found) <= FoldSet(LAMBDA x, acc : acc + x.n, 0, found)

\* no finding is withdrawn
Kept == [][\A x \in found : \E y \in found' : y.a = x.a /\ y.t = x.t /\ y.s = x.s /\ y.k = x.k /\ y.n >= x.n]_vvars
Ends == <>(pc \in {"done", "refused"})

Export == pc = "new" => PrintT("@@" \o ToJson(file))
==============================================================================
