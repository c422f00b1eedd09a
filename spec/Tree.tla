-------------------------------- MODULE Tree --------------------------------
(* The tree view of a HDF5 file: the lines of text which it must have.          *)
(* Beyond module H5, the recording of a file has here                            *)
(*   links[i].t  "h" hard, "s" soft, "x" external link; .p path, .f file;         *)
(*   links[i].xn name (in its own file) of the target of an external link;        *)
(*   by          links in the order of their names;  ao  attributes in HDF5 order *)
(*   ds          (datasets) [kind, dt, sp, shape, els, one, whole, size]          *)
EXTENDS H5

CONSTANT Limit     \* array items shown

RECURSIVE Spaces(_)
Spaces(n) == IF n = 0 THEN "" ELSE " " \o Spaces(n - 1)

RECURSIVE Nat2Text(_)
Nat2Text(n) == IF n < 10 THEN SubSeq("0123456789", n + 1, n + 1)
               ELSE Nat2Text(n \div 10) \o SubSeq("0123456789", (n % 10) + 1, (n % 10) + 1)
JoinNat(q) == Join([i \in DOMAIN q |-> Nat2Text(q[i])], ",")

RECURSIVE Product(_)
Product(q) == IF q = <<>> THEN 1 ELSE Head(q) * Product(Tail(q))

(* ------------------------------------------------------------ attributes *)
AttrText(v) ==
  IF v.k = "text" THEN "\"" \o v.s \o "\""
  ELSE IF v.k = "list" /\ v.l[1].k = "t"
  THEN "[\"" \o Join([i \in DOMAIN v.l |-> v.l[i].s], "\", \"") \o "\"]"
  ELSE v.s

AttrLine(ind, name, text) == Spaces(ind) \o "  @" \o name \o " = " \o text

AttrLines(f, n, ind, show) ==
  IF ~show THEN <<>>
  ELSE [ i \in DOMAIN Obj(f, n).ao |->
           LET a == Obj(f, n).at[Obj(f, n).ao[i]] IN AttrLine(ind, a.n, AttrText(a.v)) ]

LinkAttrLines(lk, ind, show) ==
  IF show /\ lk.t = "x"
  THEN << AttrLine(ind, "file", "\"" \o lk.f \o "\""), AttrLine(ind, "path", "\"" \o lk.p \o "\"") >>
  ELSE <<>>

(* ---------------------------------------------------------------- arrays *)
\* which of n items are shown (0: the mark for items that are left out)
Shown(n) ==
  LET m == IF n > Limit THEN Limit - 2 ELSE n
  IN [ i \in 1..m |-> i ] \o (IF m < n THEN << 0, n >> ELSE <<>>)

\* the array that starts after element off of els
RECURSIVE ArrayText(_, _, _, _)
ArrayText(els, shape, off, ind) ==
  LET q == Shown(shape[1])
      rest == Product(Tail(shape))
      Cell(i) ==
        IF q[i] = 0 THEN (IF Len(shape) = 1 THEN "'...'" ELSE "...")
        ELSE IF Len(shape) = 1 THEN els[off + q[i]]
        ELSE IF Len(shape) > 3 THEN "rank=" \o Nat2Text(Len(shape) - 1)
        ELSE ArrayText(els, Tail(shape), off + (q[i] - 1) * rest, ind + 4)
      cells == [ i \in DOMAIN q |-> Cell(i) ]
      nl == "\n" \o Spaces(ind)
  IN IF Len(shape) = 1 THEN "[" \o Join(cells, ", ") \o "]"
     ELSE "[" \o nl \o "  " \o Join(cells, nl \o "  ") \o nl \o "]"

(* -------------------------------------------------------------- datasets *)
TypeText(d, nexus) ==
  LET t == IF d.kind = "S"
           THEN IF d.sp /\ d.shape # <<>>
                THEN "char[" \o Join(d.size, ",") \o "]"
                ELSE "CHAR"
           ELSE IF d.kind = "O" THEN "CHAR" ELSE d.dt
      up == IF d.kind = "S"
            THEN IF d.sp /\ d.shape # <<>>
                 THEN "CHAR[" \o Join(d.size, ",") \o "]"
                 ELSE "CHAR"
            ELSE IF d.kind = "O" THEN "CHAR" ELSE d.DT
  IN IF nexus THEN "NX_" \o up ELSE t

ShapeText(d) == IF d.shape = <<1>> THEN "" ELSE "[" \o JoinNat(d.shape) \o "]"

Quoted(q) == [i \in DOMAIN q |-> "\"" \o q[i] \o "\""]

\* the lines of a dataset, its attributes apart
ValueLines(d, name, ind, nexus) ==
  LET head == Spaces(ind) \o name \o ":" \o TypeText(d, nexus)
  IN IF d.kind = "S"
     THEN << head \o " = " \o
             (IF ~d.sp \/ d.shape = <<>> THEN d.whole
              ELSE IF Len(d.els) > 1 THEN "[" \o Join(Quoted(d.els), ", ") \o "]"
              ELSE Join(Quoted(d.els), ", ")) >>
     ELSE IF d.kind = "O" THEN << head \o " = " \o d.whole >>
     ELSE IF d.shape = <<1>> THEN << head \o " = " \o d.one >>
     ELSE IF Limit <= 2 THEN << head \o ShapeText(d) \o " = [ ... ]" >>
     ELSE IF d.shape = <<>> THEN << head \o ShapeText(d) \o " = " \o d.whole >>
     ELSE IF Len(d.shape) = 1
     THEN << head \o ShapeText(d) \o " = " \o ArrayText(d.els, d.shape, 0, ind + 4) >>
     ELSE << head \o ShapeText(d) \o " = __array",
             Spaces(ind) \o "  __array = " \o ArrayText(d.els, d.shape, 0, ind + 4) >>

(* ----------------------------------------------------------------- groups *)
TreeClass(f, n) ==
  LET v == Attr(f, n, "NX_class")
      t == IF ~HasAttr(f, n, "NX_class") THEN ""
           ELSE IF v.k = "text" THEN v.s
           ELSE IF v.k = "list" /\ v.l[1].k = "t" THEN v.l[1].s ELSE ""
  IN IF t = "" THEN "" ELSE ":" \o t

\* an object which says that it is a link to something else
IsLinkTo(f, n, hname) ==
  /\ HasAttr(f, n, "target") /\ IsText(Attr(f, n, "target"))
  /\ Attr(f, n, "target").s # "" /\ Attr(f, n, "target").s # hname

Reached(hn, lk) == IF lk.t = "x" THEN lk.xn ELSE Under(hn, lk.n)

\* parents: the groups from the root, [nd, hn]
RECURSIVE GroupLines(_, _, _, _, _, _, _, _, _)
GroupLines(f, n, name, hn, ind, lk, parents, nexus, show) ==
  LET me == Append(parents, [nd |-> n, hn |-> hn])
      links == [ i \in DOMAIN Obj(f, n).by |-> Obj(f, n).links[Obj(f, n).by[i]] ]
      in == ind + 2
      Leaf(k) ==       \* lines of a link that is no group
        LET h == Reached(hn, k)
        IN IF k.t = "s" THEN << Spaces(in) \o k.n \o ": --> " \o k.p >>
           ELSE IF k.to = 0
           THEN << Spaces(in) \o k.n \o ": missing external file" >> \o LinkAttrLines(k, in, show)
           ELSE IF IsLinkTo(f, k.to, h)
           THEN << Spaces(in) \o k.n \o " --> " \o Attr(f, k.to, "target").s >>
           ELSE IF IsGroup(f, k.to) THEN <<>>
           ELSE IF IsData(f, k.to)
           THEN ValueLines(Obj(f, k.to).ds, k.n, in, nexus)
                \o AttrLines(f, k.to, in, show) \o LinkAttrLines(k, in, show)
           ELSE << Spaces(in) \o k.n \o ":" \o Obj(f, k.to).ds.dt >> \o AttrLines(f, k.to, in, show)
      Sub(k) ==        \* lines of a link that is a group
        IF k.t = "s" \/ k.to = 0 \/ ~IsGroup(f, k.to) THEN <<>>
        ELSE LET h == Reached(hn, k)
                 same == { j \in DOMAIN me : me[j].nd = k.to }
             IN IF IsLinkTo(f, k.to, h) THEN <<>>
                ELSE IF same # {}
                THEN << Spaces(in) \o k.n \o " --> " \o me[CHOOSE j \in same : \A m \in same : j <= m].hn >>
                ELSE GroupLines(f, k.to, k.n, h, in, k, me, nexus, show)
  IN << Spaces(ind) \o name \o TreeClass(f, n) >>
     \o AttrLines(f, n, ind, show) \o (IF Len(parents) = 0 THEN <<>> ELSE LinkAttrLines(lk, ind, show))
     \o FlattenSeq([i \in DOMAIN links |-> Leaf(links[i])])
     \o FlattenSeq([i \in DOMAIN links |-> Sub(links[i])])

\* is there a NXentry group in the root group?
NeXusFile(f) ==
  \E i \in DOMAIN Obj(f, 1).links :
    LET c == Obj(f, 1).links[i].to
    IN /\ IsGroup(f, c) /\ HasAttr(f, c, "NX_class")
       /\ LET v == Attr(f, c, "NX_class")
          IN (v.k = "text" /\ v.s = "NXentry") \/ (v.k = "list" /\ v.l[1].k = "t" /\ v.l[1].s = "NXentry")

NoLink == [t |-> "h", p |-> "", f |-> "", xn |-> "", n |-> "", to |-> 1]

TreeLines(f, fname, show) ==
  GroupLines(f, 1, fname \o (IF NeXusFile(f) THEN " : NeXus data file" ELSE ""), "/", 0, NoLink, <<>>,
             NeXusFile(f), show)
==============================================================================
