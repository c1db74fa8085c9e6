-------------------------------- MODULE MCPar --------------------------------
(***************************************************************************)
(* Two clients, every interleaving of their steps: one saves and one loads, *)
(* two load, two save.  The order in which they proceed is recorded and     *)
(* emitted with what each of them must obtain.                              *)
(***************************************************************************)
EXTENDS MC

VARIABLES order, pair
pvars == << sess, order, pair >>

(* Few sections, different content. *)
ParA == [EmptySpec EXCEPT !.nodes = BaseNodes, !.phys = BasePhys]
ParB == [EmptySpec EXCEPT !.nodes = Small.nodes, !.nd = Small.nd]
ParC == [EmptySpec EXCEPT !.elems = BaseElems, !.nodes = NodesOf(<< NodeBlk(0, 4, 0, <<6, 4, 3, 2, 5, 1>>, 60) >>, 1, 6)]
SaveSess(d, m) == [SaveStart([d EXCEPT !.fmt = m], FALSE) EXCEPT !.label = "save"]
LoadSess(d, m) == [FileStart(WriteAll([d EXCEPT !.fmt = m], FALSE), FALSE, "load") EXCEPT !.cur = [d EXCEPT !.fmt = m]]
(* 2.2 elements with several tags, of different types and sizes. *)
TagsA == << <<2, <<9, 4>>, <<1, 2, 3>> >>, <<1, <<3, 2, 8, 7>>, <<4, 1>> >>, <<15, <<6>>, <<2>> >>, <<2, <<8, 4>>, <<2, 3, 4>> >> >>
TagsB == << <<15, <<7, 9>>, <<3>> >>, <<4, <<5, 5>>, <<4, 3, 2, 1>> >>, <<1, <<>>, <<3, 2>> >>, <<4, <<6, 5, 1>>, <<1, 2, 3, 4>> >> >>
ElemSess(q, m) == FileStart(Header(m) \o Section("Elements", Elements22(q, <<7, 5, 3, 2>>, m, TRUE)), FALSE, "load")
BadElems(q, m) == [ElemSess(q, m) EXCEPT !.file = SubSeq(@, 1, Len(@) - 3)]
ParD == [EmptySpec EXCEPT !.ents = BaseEnts, !.ed = <<BaseED>>]
ParE == [EmptySpec EXCEPT !.ents = Small.ents, !.end = Small.end]
BadSess(m)     == FileStart(SubSeq(WriteAll([ParA EXCEPT !.fmt = m], FALSE), 1, 19), FALSE, "load")

M == [a4 |-> Mode("4.1", 0), b4 |-> Mode("4.1", 1), a2 |-> Mode("2.2", 0), b2 |-> Mode("2.2", 1)]
Pairs ==
    << << SaveSess(ParA, M.a4), LoadSess(ParB, M.b4) >>, << SaveSess(ParC, M.b2), LoadSess(ParC, M.a2) >>,
      << LoadSess(ParC, M.b2), LoadSess(ParA, M.a2) >>, << LoadSess(ParB, M.a4), LoadSess(ParC, M.a2) >>,
      << LoadSess(ParC, M.a2), LoadSess(ParB, M.a2) >>, << LoadSess(ParC, M.b2), LoadSess(ParC, M.b4) >>,
      << SaveSess(ParA, M.a4), SaveSess(ParB, M.a2) >>, << SaveSess(ParB, M.b4), SaveSess(ParC, M.a4) >>,
      << BadSess(M.a4), LoadSess(ParC, M.a2) >>, << BadSess(M.b2), SaveSess(ParA, M.b4) >>,
      << LoadSess(ParA, M.b4), LoadSess(ParA, M.b4) >>, << SaveSess(ParC, M.a2), SaveSess(ParC, M.a2) >>,
      << ElemSess(TagsA, M.a2), ElemSess(TagsB, M.a2) >>, << ElemSess(TagsA, M.b2), ElemSess(TagsB, M.b2) >>,
      << ElemSess(TagsB, M.a2), ElemSess(TagsA, M.b2) >>, << BadElems(TagsA, M.b2), ElemSess(TagsB, M.b2) >>,
      << BadElems(TagsB, M.a2), ElemSess(TagsA, M.a2) >>,
      << LoadSess(ParD, M.a4), LoadSess(ParE, M.a4) >>, << LoadSess(ParD, M.b4), LoadSess(ParE, M.b4) >>,
      << SaveSess(ParD, M.a4), SaveSess(ParE, M.a4) >>, << SaveSess(ParD, M.b4), LoadSess(ParE, M.b4) >>,
      << SaveSess(ParC, M.a4), SaveSess(ParC, M.a2) >>, << SaveSess(ParC, M.b4), SaveSess(ParC, M.b2) >>,
      << LoadSess(ParC, M.a4), LoadSess([ParC EXCEPT !.elems = Small.elems], M.a4) >>,
      << LoadSess(ParC, M.b4), LoadSess([ParC EXCEPT !.elems = Small.elems], M.b4) >> >>
(* One whole call within another: richer descriptions, every section and encoding. *)
RichA == [Base EXCEPT !.ed = <<BaseED>>]
RichB == Small
NestedOf(e) ==
    LET A(op, m) == IF op = "save" THEN [SaveSess(IF e THEN BaseExt ELSE RichA, m) EXCEPT !.ext = e]
                    ELSE [FileStart(WriteAll([(IF e THEN BaseExt ELSE RichA) EXCEPT !.fmt = m], e), e, "load") EXCEPT !.cur = [(IF e THEN BaseExt ELSE RichA) EXCEPT !.fmt = m]]
        B2(op, m) == IF op = "save" THEN [SaveSess(IF e THEN SmallExt ELSE RichB, m) EXCEPT !.ext = e]
                    ELSE [FileStart(WriteAll([(IF e THEN SmallExt ELSE RichB) EXCEPT !.fmt = m], e), e, "load") EXCEPT !.cur = [(IF e THEN SmallExt ELSE RichB) EXCEPT !.fmt = m]]
        Ops == {"save", "load"}
    IN SetToSeq({ << A(x[1], x[3]), B2(x[2], x[4]) >> : x \in { y \in Ops \X Ops \X Modes \X Modes :
            /\ y[3].ver = y[4].ver \/ Thorough
            /\ e => y[1] = y[2] /\ (y[3] = y[4] \/ Thorough) } })
Nested == NestedOf(FALSE) \o NestedOf(TRUE)
AllPairs == Pairs \o Nested
begun == AllPairs[pair]


Done(c) == LET s == sess[c] IN
    \/ s.phase = "failed" \/ (s.label = "save" /\ s.phase = "file") \/ (s.label = "load" /\ s.phase = "idle")

ParInit == pair \in 1..Len(AllPairs) /\ sess = AllPairs[pair] /\ order = <<>>

(* In a nested pair, who began does not go on until the other has finished. *)
Within(c) == IF pair <= Len(Pairs) \/ order = <<>> THEN TRUE
             ELSE order[1] = c => \A x \in Clients : x = c \/ Done(x) \/ ~(\E i \in 1..Len(order) : order[i] = x)
Step(c) ==
    /\ ~Done(c) /\ Within(c)
    /\ \/ BeginSave(c, sess[c].cur.fmt) \/ WriteSection(c) \/ EndSave(c)
       \/ BeginLoad(c) \/ SkipStray(c) \/ LoadSection(c) \/ EndLoad(c)
    /\ order' = Append(order, c)
    /\ UNCHANGED pair

ParNext == \E c \in Clients : Step(c)
ParSpec == ParInit /\ [][ParNext]_pvars /\ WF_pvars(ParNext)

AllDone == \A c \in Clients : Done(c)

(* What a client obtains is a function of its own start. *)
Isolated == \A c \in Clients : LET s == sess[c]  b == begun[c] IN
    Done(c) => IF b.label = "save" THEN s.phase = "file" /\ s.file = WriteAll(b.cur, b.ext)
               ELSE LET r == ReadAll(b.file, b.ext) IN
                    IF r.p < 0 THEN s.phase = "failed" ELSE s.phase = "idle" /\ s.cur = r.v
ParFinishes == <>AllDone

(* The clients of each pair once, then every complete order. *)
EmitPar ==
    /\ order = <<>> =>
         PrintT(ToJson([ pair |-> pair,
                         clients |-> [c \in Clients |-> [ op |-> begun[c].label, ext |-> begun[c].ext, nested |-> pair > Len(Pairs), spec |-> begun[c].cur, file |-> begun[c].file ]] ]))
    /\ AllDone => PrintT(ToJson([ pair |-> pair, order |-> order ]))
=============================================================================
