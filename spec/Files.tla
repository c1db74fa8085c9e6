-------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* Families of files, as other programs may write them.                    *)
(***************************************************************************)
EXTENDS Families

Header(m) == Section("MeshFormat", FormatBody([EmptySpec EXCEPT !.fmt = m]))
F(d, m) == [d EXCEPT !.fmt = m]
NodesSec(d, m) == Section("Nodes", IF m.ver = "4.1" THEN NodesBody41(F(d, m)) ELSE NodesBody22(F(d, m)))
ElemsSec(d, m) == Section("Elements", IF m.ver = "4.1" THEN ElemsBody41(F(d, m)) ELSE ElemsBody22(F(d, m)))
EntsSec(d, m)  == Section("Entities", EntsBody(F(d, m)))
PhysSec(d)     == Section("PhysicalNames", PhysBody(d))
DataSec(name, D, m, perNode) == Section(name, DataBody(F(EmptySpec, m), D, perNode))

Start(ts, label) == FileStart(ts, FALSE, label)
StartExt(ts, label) == FileStart(ts, TRUE, label)

----------------------------------------------------------------------------
(* Every section absent, empty or filled. *)
EmptyDataSet == DataSet(<<>>, <<>>, <<0, 1, 0>>, <<>>)
Presence(unused) == [phys : 0..2, ents : 0..2, nodes : 0..2, elems : 0..2, data : 0..2]
PresenceFile(x, m) ==
    Header(m)
    \o (CASE x.phys = 0 -> <<>> [] x.phys = 1 -> PhysSec(EmptySpec) [] OTHER -> PhysSec(Base))
    \o (IF m.ver = "2.2" THEN <<>> ELSE CASE x.ents = 0 -> <<>> [] x.ents = 1 -> EntsSec(EmptySpec, m) [] OTHER -> EntsSec(Base, m))
    \o (CASE x.nodes = 0 -> <<>> [] x.nodes = 1 -> NodesSec(EmptySpec, m) [] OTHER -> NodesSec(Base, m))
    \o (CASE x.elems = 0 -> <<>> [] x.elems = 1 -> ElemsSec(EmptySpec, m) [] OTHER -> ElemsSec(Base, m))
    \o (CASE x.data = 0 -> <<>>
          [] x.data = 1 -> DataSec("NodeData", EmptyDataSet, m, FALSE) \o DataSec("ElementData", EmptyDataSet, m, FALSE)
                           \o DataSec("ElementNodeData", EmptyDataSet, m, TRUE)
          [] OTHER -> DataSec("ElementNodeData", BaseEND, m, TRUE) \o DataSec("NodeData", BaseND, m, FALSE)
                      \o DataSec("ElementData", BaseED, m, FALSE))
PresenceStarts(ms) == { Start(PresenceFile(x, m), "presence") : x \in { y \in Presence(0) : y.ents # 1 \/ y.phys # 1 \/ Thorough }, m \in ms }

----------------------------------------------------------------------------
(* MSH 2.2 elements: <<type, tags, nodes>>, numbered from the list. *)
ElemHeader22(e, n, m) == << Tok(4, "i", e[1]), Tok(4, "n", n), Tok(4, "i", Len(e[2])) >>
ElemBody22(e, tag) == << Tok(4, "t", tag) >> \o Toks(4, "e", e[2]) \o Toks(4, "t", e[3])
ElemText22(e, tag) == << Tok(0, "t", tag), Tok(0, "i", e[1]), Tok(0, "i", Len(e[2])) >> \o Toks(0, "e", e[2]) \o Toks(0, "t", e[3])

(* Group lengths: each element its own header, or as few headers as possible. *)
GroupRuns(q) == Runs([i \in 1..Len(q) |-> << i, q[i][1], Len(q[i][2]) >>], LAMBDA x : << x[2], x[3] >>)
Elements22(q, tags, m, grouped) ==
    << Tok(0, "n", Len(q)) >>
    \o (IF m.bin = 0 THEN FlattenSeq([i \in 1..Len(q) |-> ElemText22(q[i], tags[i])])
        ELSE << NL >> \o
          (IF grouped
           THEN FlattenSeq([g \in 1..Len(GroupRuns(q)) |->
                  LET R == GroupRuns(q)[g] IN
                  ElemHeader22(q[R[1][1]], Len(R), m) \o FlattenSeq([j \in 1..Len(R) |-> ElemBody22(q[R[j][1]], tags[R[j][1]])])])
           ELSE FlattenSeq([i \in 1..Len(q) |-> ElemHeader22(q[i], 1, m) \o ElemBody22(q[i], tags[i])])))

Tri == NodesOf(<< NodeBlk(0, 0, 0, <<1, 3, 2, 4>>, 0) >>, 1, 4)
File22(q, tags, m, grouped) ==
    Header(m) \o NodesSec([EmptySpec EXCEPT !.nodes = Tri], m) \o Section("Elements", Elements22(q, tags, m, grouped))

TagLists == { <<>>, <<1>>, <<2>>, <<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 2, 1>>, <<1, 1, 7, 2>> }
NodesFor(type, i) == CASE type = 15 -> << 1 + (i % 3) >> [] type = 1 -> << 1 + (i % 3), 2 + (i % 2) >> [] type = 2 -> << 3, 1 + (i % 2), 4 >> [] type = 4 -> <<4, 3, 2, 1>>
Els22(types, lists, i) == { << t, l, NodesFor(t, i) >> : t \in types, l \in lists }
Seqs22(unused) ==
    { <<a>> : a \in Els22({15, 1, 2, 4}, TagLists, 1) }
    \cup { <<a, b>> : a \in Els22({15, 1, 2}, TagLists, 1), b \in Els22({1, 2}, TagLists, 2) }
    \cup { <<a, b, c>> : a \in Els22({1}, { <<2>>, <<3, 1>>, <<1, 2>> }, 1),
                         b \in Els22({1, 15}, { <<>>, <<1, 1>>, <<2, 1>>, <<5, 2, 9>> }, 2),
                         c \in Els22({1, 15}, { <<1, 1>>, <<4, 2>>, <<2>> }, 3) }
    \cup (IF Thorough THEN { <<a, b, c, d>> : a \in Els22({1}, { <<3, 1>>, <<1, 2>> }, 1),
                         b \in Els22({1, 15}, { <<1, 1>>, <<5, 2, 9>> }, 2), c \in Els22({1, 2}, { <<1, 1>>, <<2>> }, 3),
                         d \in Els22({1, 15}, { <<>>, <<2, 1>>, <<1, 2>> }, 1) } ELSE {})
ElemTagOrders(n) == { [i \in 1..n |-> i + 4], [i \in 1..n |-> 9 - 2 * i] }
Files22Starts(unused) ==
    { Start(File22(q, t, m, g), "tags22") : q \in Seqs22(0), t \in { [i \in 1..4 |-> 9 - 2 * i] }, m \in { x \in Modes : x.ver = "2.2" }, g \in {TRUE} }
    \cup { Start(File22(q, t, Mode("2.2", 1), FALSE), "tags22") : q \in Seqs22(0), t \in { [i \in 1..4 |-> i + 4] } }

(* Elements with many tags among ones with few. *)
ManyTags(n, k) == [i \in 1..n |-> IF i % k = 0 THEN i ELSE 1 + (i % k)]
TagsMany22(unused) ==
    { Start(File22([i \in 1..5 |-> << t, CASE i % 2 = 1 -> <<3, 2>> [] i = 2 -> ManyTags(n, 3) [] OTHER -> ManyTags(k, 2), NodesFor(t, i) >>],
                   [i \in 1..5 |-> 9 - i], m, TRUE), "tagsmany22")
      : t \in {15, 1, 2, 4}, n \in {5, 8, 9, 16, 24, 33, 40} \cup (IF Thorough THEN {64, 100} ELSE {}), k \in {3, 7, 17}, m \in { x \in Modes : x.ver = "2.2" } }

(* Many elements, physical tags in all orders. *)
PhysTagPerms == { <<9, 3, 5>>, <<3, 5, 9>>, <<5, 3, 3>>, <<-1, 5, 0>>, <<9, 9, 9>> }
Files22Phys(unused) ==
    { Start(File22([i \in 1..6 |-> << IF i % 2 = 0 THEN 1 ELSE 2, << p[1 + (i % 3)], e[1 + (i % 2)] >> , NodesFor(IF i % 2 = 0 THEN 1 ELSE 2, i) >>],
                   [i \in 1..6 |-> i], m, g), "phys22")
      : p \in PhysTagPerms, e \in { <<4, 2>>, <<-3, 8>>, <<6, 6>> }, m \in { x \in Modes : x.ver = "2.2" }, g \in {TRUE, FALSE} }
    \cup { Start(File22([i \in 1..6 |-> << IF i < 4 THEN 1 ELSE t, << p[1 + (i % 3)], e[1 + (i % 3)] >>, NodesFor(IF i < 4 THEN 1 ELSE t, i) >>],
                   [i \in 1..6 |-> 7 - i], m, TRUE), "phys22")
      : t \in {15, 1, 2, 4}, p \in PhysTagPerms, e \in { <<4, 2, 4>>, <<1, 8, 0>> }, m \in { x \in Modes : x.ver = "2.2" } }

(* Neighbours of different types: only the type may tell them apart. *)
Neighbours == { <<t, u>> \in ElementTypes \X ElementTypes : t # u /\ (Thorough \/ ElementDim[t] = ElementDim[u]) }
Pairs22(unused) ==
    { Start(Header(m) \o NodesSec([EmptySpec EXCEPT !.nodes = Pool], m)
            \o Section("Elements", Elements22(<< << x[1], <<7, 3>>, Wrapped(x[1], 0, 2, 60) >>, << x[2], <<6, 3>>, Wrapped(x[2], 5, 2, 60) >>,
                                                 << x[2], <<7, 3>>, Wrapped(x[2], 9, 2, 60) >> >>, <<4, 3, 9>>, m, TRUE)), "pairs22")
      : x \in Neighbours, m \in { y \in Modes : y.ver = "2.2" } }

(* Binary headers that promise more elements than the section does. *)
Contra22(unused) ==
    LET m == Mode("2.2", 1)
        El(t, l, i) == << t, l, NodesFor(t, i) >>
    IN UNION { { Start(Header(m) \o NodesSec([EmptySpec EXCEPT !.nodes = Tri], m)
                \o Section("Elements", << Tok(0, "n", k), NL >>
                     \o FlattenSeq([g \in 1..Len(x) |->
                          ElemHeader22(El(x[g][1], l, 1), x[g][2], m) \o FlattenSeq([j \in 1..x[g][2] |-> ElemBody22(El(x[g][1], l, j), 10 * g + j)])]))
                \o PhysSec(Small), "contra22")
               : k \in { n \in 1..9 : \E g \in 1..Len(x) : LET before == SumSeq([h \in 1..(g - 1) |-> x[h][2]]) IN before < n /\ n < before + x[g][2] }, l \in { <<>>, <<1>>, <<3, 2>> } }
             : x \in { << <<1, 2>> >>, << <<2, 5>> >>, << <<15, 1>>, <<1, 3>> >>, << <<2, 2>>, <<2, 2>> >>, << <<1, 3>>, <<15, 2>>, <<4, 2>> >> } }
ContraRefused == \A c \in Clients : LET s == sess[c] IN
    s.label = "contra22" /\ s.phase \in {"idle", "failed"} => s.phase = "failed" /\ s.out # "unspecified"

(* Every element type with two tags, and shared nodes. *)
AllPool == NodesOf(<< NodeBlk(0, 1, 0, Ids(1, 64), 0) >>, 2, 65)
AllTypes22(unused) ==
    { Start(Header(m) \o NodesSec([EmptySpec EXCEPT !.nodes = AllPool], m)
            \o Section("Elements", Elements22(<< << t, <<7, 3>>, Wrapped(t, 0, 2, 60) >>, << t, <<6, 3>>, Wrapped(t, 5, 2, 60) >> >>, <<4, 3>>, m, g)), "types22")
      : t \in ElementTypes, m \in { x \in Modes : x.ver = "2.2" }, g \in {TRUE, FALSE} }

----------------------------------------------------------------------------
(* Orders of sections. *)
SecList(d, m) ==
    << PhysSec(d), NodesSec(d, m), ElemsSec(d, m), DataSec("NodeData", BaseND, m, FALSE) >>
    \o (IF m.ver = "4.1" THEN << EntsSec(d, m) >> ELSE << DataSec("ElementNodeData", BaseEND, m, TRUE) >>)
Perms(n) == { p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j] }
SecList6(m) == SecList(Base, m) \o << DataSec("ElementData", BaseED, m, FALSE) >>
PermStarts(unused) ==
    UNION { LET L == SecList6(m)
                H == Header(m)
            IN { Start(H \o FlattenSeq([i \in 1..5 |-> L[p[i]]]), "order") : p \in Perms(5) }
               \cup (IF Thorough THEN { Start(H \o FlattenSeq([i \in 1..6 |-> L[p[i]]]), "order") : p \in Perms(6) } ELSE {})
          : m \in Modes }

(* The same sections in the writer's order give the same description. *)
OrderIrrelevant == \A c \in Clients : LET s == sess[c] IN
    s.label = "order" /\ Loaded(s) =>
        LET m == s.cur.fmt IN
        s.cur = [ReadAll(Header(m) \o NodesSec(Base, m) \o ElemsSec(Base, m), FALSE).v
                 EXCEPT !.phys = Base.phys, !.nd = <<BaseND>>,
                        !.ents = IF m.ver = "4.1" THEN Base.ents ELSE @,
                        !.end = IF m.ver = "2.2" THEN <<BaseEND>> ELSE @,
                        !.ed = IF Len(s.cur.ed) > 0 THEN <<BaseED>> ELSE <<>>]

(* Repeated data sections, interleaved; repeated 2.2 nodes and elements. *)
RepeatStarts(unused) ==
    { Start(Header(m) \o FlattenSeq([i \in 1..n |-> LET k == (x \div (CASE i = 1 -> 1 [] i = 2 -> 3 [] OTHER -> 9)) % 3 IN
              CASE k = 0 -> DataSec("NodeData", [BaseND EXCEPT !.st = <<i>>], m, FALSE)
                [] k = 1 -> DataSec("ElementData", [BaseED EXCEPT !.rt = <<i>>], m, FALSE)
                [] OTHER -> DataSec("ElementNodeData", [BaseEND EXCEPT !.st = <<i, 1>>], m, TRUE)]), "repeat")
      : m \in Modes, x \in 0..26, n \in {3} }
    \cup
    { Start(Header(m) \o FlattenSeq([i \in 1..Len(x) |->
              IF x[i] = 1 THEN NodesSec([EmptySpec EXCEPT !.nodes = NodesOf(<< NodeBlk(0, 1, 0, << 2 * i, 2 * i - 1 >>, 10 * i) >>, 1, 9)], m)
              ELSE IF x[i] = 2 THEN NodesSec(EmptySpec, m)
              ELSE IF x[i] = 3 THEN ElemsSec([EmptySpec EXCEPT !.elems = ElemsOf(<< ElemBlk(1, i, 1, << << 10 - i, <<1, 2 * i>> >> >>) >>, 1, 9)], m)
              ELSE ElemsSec(EmptySpec, m)]), "repeat22")
      : m \in { y \in Modes : y.ver = "2.2" }, x \in [1..3 -> 1..4] }

(* Repeated sections add up: what the file holds is what its sections hold, each read alone. *)
RECURSIVE SectionList(_)
SectionList(ts) ==
    IF ts = <<>> THEN <<>>
    ELSE LET j == SelectInSeq(ts, LAMBDA t : IsKW(t) /\ SubSeq(t[3], 1, 4) = "$End")
         IN << SubSeq(ts, 1, j) >> \o SectionList(SubSeq(ts, j + 1, Len(ts)))
RepeatAddsUp == \A c \in Clients : LET s == sess[c] IN
    s.label \in {"repeat", "repeat22"} /\ Loaded(s) =>
        LET Q == SectionList(s.file)
            One == [i \in 1..(Len(Q) - 1) |-> ReadAll(Q[1] \o Q[i + 1], s.ext).v]
            Sum(f(_)) == FlattenSeq([i \in 1..Len(One) |-> f(One[i])])
        IN /\ NodeList(s.cur) = Sum(NodeList) /\ ElemList(s.cur) = Sum(ElemList)
           /\ s.cur.nd = Sum(LAMBDA x : x.nd) /\ s.cur.ed = Sum(LAMBDA x : x.ed) /\ s.cur.end = Sum(LAMBDA x : x.end)
           /\ s.cur.nodes.nn = Len(NodeList(s.cur)) /\ s.cur.elems.ne = Len(ElemList(s.cur))

(* Sections the library does not know, at every gap; <<0,"raw",k>> stands
   for hostile bytes number k. *)
UnknownNames == IF Thorough THEN {"Foo", "Periodic", "Nodes2", "Node", "PartitionedEntities", "ElementDataX", "E"}
                ELSE {"Periodic", "Nodes2", "Node"}
UnknownBodies(m) ==
    { <<>>, << Tok(0, "x", 1), Tok(0, "n", 3) >>, << KW("$Nodes"), Tok(0, "n", 1), KW("$EndNodes"), KW("$Elements") >>,
      << KW("$EndMeshFormat") >>, << Tok(0, "s", 1), Tok(0, "d", 5) >>, << Tok(0, "x", 2), Tok(0, "x", 5), Tok(0, "x", 1) >> }
    \cup (IF m.bin = 0 THEN {} ELSE { << NL, Tok(0, "raw", k) >> : k \in 0..6 })
Gaps(d, m) == << Header(m), PhysSec(d), NodesSec(d, m), ElemsSec(d, m), DataSec("NodeData", BaseND, m, FALSE) >>
Insert(q, g, x) == FlattenSeq(SubSeq(q, 1, g)) \o x \o FlattenSeq(SubSeq(q, g + 1, Len(q)))
UnknownStarts(unused) ==
    UNION { LET G == Gaps(Base, m) IN
            { Start(Insert(G, g, Section(n, b)), "unknown") : b \in UnknownBodies(m), n \in UnknownNames, g \in 1..5 } : m \in Modes }
    \cup { Start(Insert(Gaps(Base, m), g, Section("A", << Tok(0, "n", 1) >>) \o Section("B", <<>>) \o Section("A", << KW("$B") >>)), "unknown") : m \in Modes, g \in 1..5 }
(* Names much like those the library knows, and those of other programs. *)
LikeNames == { n \o x : n \in {"MeshFormat", "Entities", "PhysicalNames", "Nodes", "Elements", "NodeData", "ElementData", "ElementNodeData",
                               "NanoSplineFormat", "Curves", "Patches"}, x \in {"X", "2", "$", "Nodes"} }
             \cup { "My" \o n : n \in {"MeshFormat", "Entities", "PhysicalNames", "Nodes", "Elements", "NodeData", "Curves", "Patches"} }
             \cup {"MeshForma", "Entitie", "PhysicalName", "Node", "Element", "NodeDat", "ElementDat", "ElementNodeDat", "ElementNode", "Curve", "Patch",
                   "NanoSpline", "meshformat", "entities", "nodes", "elements", "NODES", "nodeData", "Nodedata", "Physical", "PhysicalGroups", "NOD", "ELM",
                   "PartitionedEntities", "Periodic", "GhostElements", "Parametrizations", "InterpolationScheme", "Comments", "End", "EndNodes", "M", ""}
LikeStarts(unused) ==
    UNION { LET G == Gaps(Base, m) IN { Start(Insert(G, g, Section(n, b)), "unknown") :
              b \in { << Tok(0, "n", 1), Tok(0, "n", 3) >>, << Tok(0, "s", 1) >> }, n \in LikeNames, g \in IF Thorough THEN 1..5 ELSE {1, 3} } : m \in Modes }
UnknownIgnored == \A c \in Clients : LET s == sess[c] IN
    s.label \in {"unknown", "stray"} /\ s.phase \in {"idle", "failed"} =>
        s.cur = ReadAll(FlattenSeq(Gaps(Base, s.cur.fmt)), FALSE).v

(* Text between sections. *)
StrayStarts(unused) ==
    { Start(Insert(Gaps(Base, m), g, x), "stray") : m \in Modes, g \in 0..5,
        x \in { << Tok(0, "x", 1) >>, << Tok(0, "n", 7), Tok(0, "d", 3), Tok(0, "x", 2) >>, << Tok(0, "x", 3), Tok(0, "x", 5), Tok(0, "x", 0) >> } }

----------------------------------------------------------------------------
(* Headers and features that must be refused. *)
BadHeader(ver, bin, dsz, one) ==
    Section("MeshFormat", << Tok(0, "w", ver), Tok(0, "i", bin), Tok(0, "i", dsz) >>
                          \o (IF bin # 0 THEN << NL, Tok(4, "m", one) >> ELSE <<>>))
BadVersions == {"1.0", "1", "2", "2.0", "2.1", "2.20", "2.2.0", "02.2", "3.0", "3", "4", "4.0", "4.10", "4.11", "4.2", "04.1", "5.0", "+4.1", "4.1a", "abc"}
ElemsWithType(t, m) ==
    LET nodes == Toks(IF m.bin = 1 THEN (IF m.ver = "4.1" THEN 8 ELSE 4) ELSE 0, "t", <<1, 2, 3, 4, 5, 6, 1, 2>>)
        e8 == IF m.bin = 1 THEN 8 ELSE 0
        e4 == IF m.bin = 1 THEN 4 ELSE 0
    IN IF m.ver = "4.1"
       THEN (IF m.bin = 1 THEN <<NL>> ELSE <<>>)
            \o << Tok(e8, "n", 2), Tok(e8, "n", 2), Tok(e8, "t", 1), Tok(e8, "t", 2),
                  Tok(e4, "i", 0), Tok(e4, "e", 1), Tok(e4, "i", 15), Tok(e8, "n", 1), Tok(e8, "t", 1), Tok(e8, "t", 1),
                  Tok(e4, "i", 2), Tok(e4, "e", 1), Tok(e4, "i", t), Tok(e8, "n", 1), Tok(e8, "t", 2) >> \o nodes
       ELSE << Tok(0, "n", 2) >> \o (IF m.bin = 1 THEN <<NL>> ELSE <<>>)
            \o (IF m.bin = 1
                THEN << Tok(4, "i", 15), Tok(4, "n", 1), Tok(4, "i", 2), Tok(4, "t", 1), Tok(4, "e", 3), Tok(4, "e", 4), Tok(4, "t", 1),
                        Tok(4, "i", t), Tok(4, "n", 1), Tok(4, "i", 2), Tok(4, "t", 2), Tok(4, "e", 3), Tok(4, "e", 4) >> \o nodes
                ELSE << Tok(0, "t", 1), Tok(0, "i", 15), Tok(0, "i", 2), Tok(0, "e", 3), Tok(0, "e", 4), Tok(0, "t", 1),
                        Tok(0, "t", 2), Tok(0, "i", t), Tok(0, "i", 2), Tok(0, "e", 3), Tok(0, "e", 4) >> \o nodes)
RefuseStarts(unused) ==
    { Start(BadHeader(v, b, 8, 1) \o NodesSec(Base, Mode("4.1", b)), "version") : v \in BadVersions, b \in {0, 1} }
    \cup { Start(BadHeader("4.1", b, z, 1) \o PhysSec(Base), "datasize") : b \in {0, 1}, z \in {-8, 0, 1, 4, 7, 9, 16, 80} }
    \cup { Start(BadHeader(v, 1, 8, o) \o PhysSec(Base), "endian") : v \in {"2.2", "4.1"}, o \in {0, 2, 16777216, 65536, 256, 257, -1} }
    \cup { Start(Header(m) \o NodesSec(Base, m) \o Section("Elements", ElemsWithType(t, m)) \o PhysSec(Base), "type")
           : m \in Modes, t \in {-100, -15, -1, 0, 32, 33, 47, 92, 93, 140, 1000} }
    \cup { Start(Header(m) \o g \o Section("Entities", EntsBody(F(e, m))) \o PhysSec(Base), "entities22")
           : m \in { x \in Modes : x.ver = "2.2" }, e \in {Base, EmptySpec}, g \in { <<>>, PhysSec(Base) } }
    \cup { Start(Header(m) \o PhysSec(Base)
                 \o Section(n, << Tok(0, "n", 1), Tok(0, "s", 1), Tok(0, "n", 1), Tok(0, "r", 4), Tok(0, "n", k) >>
                                \o SubSeq(<< Tok(0, "e", 0), Tok(0, "n", 1) >>, 1, k) \o (IF m.bin = 1 THEN <<NL>> ELSE <<>>)), "inttags")
           : m \in Modes, n \in {"NodeData", "ElementData", "ElementNodeData"}, k \in 0..2 }
Refused == \A c \in Clients : LET s == sess[c] IN
    s.phase \in {"idle", "failed"} =>
        s.phase = "failed" /\ s.out = (IF s.label \in {"entities22", "inttags"} THEN "InvalidFormat" ELSE "UnsupportedFeature")

(* 2.2 does not prescribe the data size for ASCII; both sizes are accepted. *)

----------------------------------------------------------------------------
(* Files of other programs, for damage: several tags per element, an unknown
   section, sections in another order. *)
CutFiles(unused) ==
    { Start(Header(m) \o Section("Other", << Tok(0, "x", 3), Tok(0, "x", 1) >>)
            \o (IF m.ver = "2.2"
                THEN Section("Elements", Elements22(<< <<1, <<3, 2>>, <<1, 3>> >>, <<1, <<4, 2>>, <<3, 2>> >>, <<15, <<>>, <<2>> >>, <<15, <<1, 2, 3>>, <<4>> >> >>, <<4, 2, 3, 1>>, m, TRUE))
                ELSE EntsSec(Small, m) \o ElemsSec(Small, m))
            \o DataSec("ElementData", BaseED, m, FALSE)
            \o NodesSec([EmptySpec EXCEPT !.nodes = Tri], m) \o PhysSec(Small), "cutfile") : m \in Modes }
CutFile(m) == (CHOOSE x \in CutFiles(0) : x.file[3] = Tok(0, "i", m.bin) /\ x.file[2] = Tok(0, "w", m.ver)).file

----------------------------------------------------------------------------
(* Splines read by a library without the extension, and in any place. *)
SplineFiles(unused) ==
    { FileStart(Insert(Gaps(Base, m), g, Section("NanoSplineFormat", << Tok(0, "w", "1.2") >>)
                       \o Section("Curves", CurvesBody(F([BaseExt EXCEPT !.curves = c], m)))
                       \o Section("Patches", PatchesBody(F([BaseExt EXCEPT !.patches = q], m)))), e, "spline")
      : m \in Modes, g \in 1..5, e \in {TRUE, FALSE},
        c \in { <<BaseCurve>>, <<BaseCurve, [BaseCurve EXCEPT !.w = 0, !.ncp = 1, !.data = Ids(10, 6)]>>, <<>> },
        q \in { <<BasePatch>>, <<BasePatch, [BasePatch EXCEPT !.w = 1, !.nu = 0, !.data = Ids(10, 11)]>>, <<>> } }
SplineHarmless == \A c \in Clients : LET s == sess[c] IN
    s.label = "spline" /\ s.phase \in {"idle", "failed"} =>
        /\ s.phase = "idle"
        /\ [s.cur EXCEPT !.curves = <<>>, !.patches = <<>>, !.nsf = EmptySpec.nsf] = ReadAll(FlattenSeq(Gaps(Base, s.cur.fmt)), FALSE).v
        /\ ~s.ext => s.cur.curves = <<>> /\ s.cur.patches = <<>>
=============================================================================
