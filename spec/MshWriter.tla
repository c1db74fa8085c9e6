----------------------------- MODULE MshWriter -----------------------------
(***************************************************************************)
(* What save_msh writes: one operator per section, each giving the tokens  *)
(* of that section for a description s.                                    *)
(***************************************************************************)
EXTENDS MshBase

IsBin(s) == s.fmt.bin # 0
E8(s)    == IF IsBin(s) THEN 8 ELSE 0
E4(s)    == IF IsBin(s) THEN 4 ELSE 0
Sep(s)   == IF IsBin(s) THEN <<NL>> ELSE <<>>

Section(name, body) == <<KW("$" \o name)>> \o body \o <<KW("$End" \o name)>>

----------------------------------------------------------------------------
FormatBody(s) ==
    << Tok(0, "w", s.fmt.ver), Tok(0, "i", s.fmt.bin), Tok(0, "i", s.fmt.dsz) >>
    \o (IF IsBin(s) THEN << NL, Tok(4, "m", 1) >> ELSE <<>>)

----------------------------------------------------------------------------
NodesBody41(s) ==
    LET N == s.nodes
        e8 == E8(s)
        e4 == E4(s)
    IN  Sep(s)
        \o << Tok(e8, "n", N.nb), Tok(e8, "n", N.nn), Tok(e8, "t", N.mn), Tok(e8, "t", N.mx) >>
        \o FlattenSeq([i \in 1..Len(N.blocks) |->
             LET b == N.blocks[i] IN
                << Tok(e4, "i", b.dim), Tok(e4, "e", b.etag), Tok(e4, "i", b.par), Tok(e8, "n", b.n) >>
                \o Toks(e8, "t", b.tags) \o Toks(e8, "d", b.data)])

(* 2.2 has no node blocks and no parametric coordinates. *)
NodesBody22(s) ==
    LET e8 == E8(s)
        e4 == E4(s)
        L  == NodeList(s)
    IN  << Tok(0, "n", s.nodes.nn) >> \o Sep(s)
        \o FlattenSeq([i \in 1..Len(L) |->
             << Tok(e4, "t", L[i][1]), Tok(e8, "d", L[i][2]), Tok(e8, "d", L[i][3]), Tok(e8, "d", L[i][4]) >>])

----------------------------------------------------------------------------
ElemsBody41(s) ==
    LET E == s.elems
        e8 == E8(s)
        e4 == E4(s)
    IN  Sep(s)
        \o << Tok(e8, "n", E.nb), Tok(e8, "n", E.ne), Tok(e8, "t", E.mn), Tok(e8, "t", E.mx) >>
        \o FlattenSeq([i \in 1..Len(E.blocks) |->
             LET b == E.blocks[i] IN
                << Tok(e4, "i", b.dim), Tok(e4, "e", b.etag), Tok(e4, "i", b.type), Tok(e8, "n", b.n) >>
                \o Toks(e8, "t", b.data)])

(* 2.2: every element carries one tag, the tag of its entity.  In binary the
   elements of a block share a header. *)
ElemsBody22(s) ==
    LET E == s.elems
        L == ElemList(s)
    IN  << Tok(0, "n", E.ne) >> \o Sep(s)
        \o IF IsBin(s)
           THEN FlattenSeq([i \in 1..Len(E.blocks) |->
                  LET b == E.blocks[i]
                      w == ElementSize[b.type] + 1
                  IN << Tok(4, "i", b.type), Tok(4, "n", b.n), Tok(4, "i", 1) >>
                     \o FlattenSeq([j \in 1..b.n |->
                          << Tok(4, "t", b.data[(j-1)*w + 1]), Tok(4, "e", b.etag) >>
                          \o Toks(4, "t", SubSeq(b.data, (j-1)*w + 2, j*w))])])
           ELSE FlattenSeq([i \in 1..Len(L) |->
                  << Tok(0, "t", L[i][1]), Tok(0, "i", L[i][2]), Tok(0, "i", 1), Tok(0, "e", L[i][3]) >>
                  \o Toks(0, "t", L[i][4])])

----------------------------------------------------------------------------
EntsBody(s) ==
    LET G == s.ents
        e8 == E8(s)
        e4 == E4(s)
        Counted(q) == << Tok(e8, "n", Len(q)) >> \o Toks(e4, "e", q)
        Points == FlattenSeq([i \in 1..Len(G.p) |->
                    << Tok(e4, "e", G.p[i].tag) >> \o Toks(e8, "d", G.p[i].box) \o Counted(G.p[i].phys)])
        Higher(q) == FlattenSeq([i \in 1..Len(q) |->
                    << Tok(e4, "e", q[i].tag) >> \o Toks(e8, "d", q[i].box)
                    \o Counted(q[i].phys) \o Counted(q[i].bnd)])
    IN  Sep(s)
        \o << Tok(e8, "n", Len(G.p)), Tok(e8, "n", Len(G.c)), Tok(e8, "n", Len(G.s)), Tok(e8, "n", Len(G.v)) >>
        \o Points \o Higher(G.c) \o Higher(G.s) \o Higher(G.v)

----------------------------------------------------------------------------
PhysBody(s) ==
    << Tok(0, "n", Len(s.phys)) >>
    \o FlattenSeq([i \in 1..Len(s.phys) |->
         << Tok(0, "i", s.phys[i].dim), Tok(0, "e", s.phys[i].tag), Tok(0, "s", s.phys[i].name) >>])

----------------------------------------------------------------------------
(* Integer tags 2 and 3 are counts; the others are free. *)
IntTagKind(i) == IF i \in {2, 3} THEN "n" ELSE "e"

DataBody(s, D, perNode) ==
    LET e8 == E8(s)
        e4 == E4(s)
    IN  << Tok(0, "n", Len(D.st)) >> \o Toks(0, "s", D.st)
        \o << Tok(0, "n", Len(D.rt)) >> \o Toks(0, "r", D.rt)
        \o << Tok(0, "n", Len(D.it)) >> \o [i \in 1..Len(D.it) |-> Tok(0, IntTagKind(i), D.it[i])]
        \o Sep(s)
        \o FlattenSeq([i \in 1..Len(D.entries) |->
             LET x == D.entries[i] IN
                << Tok(e4, "t", x.tag) >>
                \o (IF perNode THEN << Tok(e4, "n", x.npe) >> ELSE <<>>)
                \o Toks(e8, "d", x.data)])

DataSections(s, name, Ds, perNode) ==
    FlattenSeq([i \in 1..Len(Ds) |-> Section(name, DataBody(s, Ds[i], perNode))])

----------------------------------------------------------------------------
(* Custom sections: headers are always text, control points and knots follow
   the file's encoding. *)
CurvesBody(s) ==
    << Tok(0, "n", Len(s.curves)) >>
    \o FlattenSeq([i \in 1..Len(s.curves) |->
         LET c == s.curves[i] IN
            << Tok(0, "t", c.tag), Tok(0, "t", c.type), Tok(0, "t", c.deg),
               Tok(0, "n", c.ncp), Tok(0, "n", c.nk), Tok(0, "t", c.w) >>
            \o Sep(s) \o Toks(E8(s), "d", c.data)])

PatchesBody(s) ==
    << Tok(0, "n", Len(s.patches)) >>
    \o FlattenSeq([i \in 1..Len(s.patches) |->
         LET q == s.patches[i] IN
            << Tok(0, "t", q.tag), Tok(0, "t", q.type), Tok(0, "t", q.du), Tok(0, "t", q.dv),
               Tok(0, "n", q.ncp), Tok(0, "n", q.nu), Tok(0, "n", q.nv), Tok(0, "t", q.w) >>
            \o Sep(s) \o Toks(E8(s), "d", q.data)])

----------------------------------------------------------------------------
(***************************************************************************)
(* The sections of a saved file, in the order save_msh writes them.  `ext' *)
(* says whether the NanoSpline extension is compiled in.                   *)
(***************************************************************************)
WriterSections == << "format", "phys", "ents", "nodes", "elems", "nd", "ed", "end",
                     "nsf", "curves", "patches" >>

NoEnts(s) == Len(s.ents.p) + Len(s.ents.c) + Len(s.ents.s) + Len(s.ents.v) = 0

SectionTokens(sec, s, ext) ==
    CASE sec = "format"  -> Section("MeshFormat", FormatBody(s))
      [] sec = "phys"    -> IF Len(s.phys) > 0 THEN Section("PhysicalNames", PhysBody(s)) ELSE <<>>
      [] sec = "ents"    -> IF ~NoEnts(s) /\ s.fmt.ver = "4.1"
                            THEN Section("Entities", EntsBody(s)) ELSE <<>>
      [] sec = "nodes"   -> IF s.nodes.nn > 0
                            THEN Section("Nodes", IF s.fmt.ver = "4.1" THEN NodesBody41(s) ELSE NodesBody22(s))
                            ELSE <<>>
      [] sec = "elems"   -> IF s.elems.ne > 0
                            THEN Section("Elements", IF s.fmt.ver = "4.1" THEN ElemsBody41(s) ELSE ElemsBody22(s))
                            ELSE <<>>
      [] sec = "nd"      -> DataSections(s, "NodeData", s.nd, FALSE)
      [] sec = "ed"      -> DataSections(s, "ElementData", s.ed, FALSE)
      [] sec = "end"     -> DataSections(s, "ElementNodeData", s.end, TRUE)
      [] sec = "nsf"     -> IF ext THEN Section("NanoSplineFormat", << Tok(0, "w", s.nsf) >>) ELSE <<>>
      [] sec = "curves"  -> IF ext /\ Len(s.curves) > 0 THEN Section("Curves", CurvesBody(s)) ELSE <<>>
      [] sec = "patches" -> IF ext /\ Len(s.patches) > 0 THEN Section("Patches", PatchesBody(s)) ELSE <<>>

WriteAll(s, ext) == FlattenSeq([i \in 1..Len(WriterSections) |-> SectionTokens(WriterSections[i], s, ext)])

(***************************************************************************)
(* When save_msh refuses: unsupported version, unsupported element type in *)
(* a section that is written, or a tag too wide for a 32-bit field.        *)
(* WideTags is the set of tag ordinals beyond 31 bits.                     *)
(***************************************************************************)
SaveRefused(s, WideTags) ==
    \/ s.fmt.ver \notin {"4.1", "2.2"}
    \/ s.elems.ne > 0 /\ \E i \in 1..Len(s.elems.blocks) : ~IsElementType(s.elems.blocks[i].type)
    \/ /\ IsBin(s)
       /\ \/ /\ s.fmt.ver = "2.2"
             /\ \/ \E i \in 1..Len(s.nodes.blocks) : \E j \in 1..Len(s.nodes.blocks[i].tags) :
                     s.nodes.blocks[i].tags[j] \in WideTags
                \/ \E i \in 1..Len(s.elems.blocks) : \E j \in 1..Len(s.elems.blocks[i].data) :
                     s.elems.blocks[i].data[j] \in WideTags
          \/ \E Ds \in {s.nd, s.ed, s.end} : \E i \in 1..Len(Ds) :
                \E j \in 1..Len(Ds[i].entries) : Ds[i].entries[j].tag \in WideTags
=============================================================================
