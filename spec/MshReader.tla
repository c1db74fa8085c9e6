----------------------------- MODULE MshReader -----------------------------
(***************************************************************************)
(* What load_msh reads: one operator per section, each parsing the tokens  *)
(* of a file from a position on, and the regrouping done after a 2.2 file  *)
(* has been read.                                                          *)
(*                                                                         *)
(* A parse yields [p |-> next position, v |-> value].  The position is     *)
(* negative when parsing stopped:                                          *)
(*   FAIL     something else than expected, or the end of the file:        *)
(*            loading throws                                               *)
(*   UNSUPP   UnsupportedFeature is thrown                                 *)
(*   INVALID  InvalidFormat is thrown                                      *)
(*   UNSPEC   the model does not say what happens (only that loading ends) *)
(*                                                                         *)
(* In text mode a number is read from any token that spells a number,      *)
(* whatever the writer meant it to be: that decides damaged ASCII files    *)
(* exactly, when every value of the model is spelled as itself.            *)
(***************************************************************************)
EXTENDS MshBase

FAIL    == -1
UNSUPP  == -2
INVALID == -3
UNSPEC  == -4

Outcome(p) == CASE p = FAIL -> "refused" [] p = UNSUPP -> "UnsupportedFeature"
                [] p = INVALID -> "InvalidFormat" [] p = UNSPEC -> "unspecified"
                [] OTHER -> "ok"

Stop(p)  == [p |-> p, v |-> <<>>]
At(p, v) == [p |-> p, v |-> v]

----------------------------------------------------------------------------
(* Fields. *)

FieldStatus(t, enc) ==
    IF enc = 0
    THEN IF IsTextNum(t) THEN 0
         ELSE IF t[1] = 0 /\ t[2] \in {"kw", "x", "s"} THEN FAIL ELSE UNSPEC
    ELSE IF t[1] = enc THEN 0 ELSE UNSPEC

(* k fields of encoding enc from p on. *)
Take(ts, p, k, enc) ==
    IF k < 0 THEN Stop(UNSPEC)
    ELSE LET avail == Len(ts) - p + 1
             m == IF k < avail THEN k ELSE avail
             bad == { i \in p..(p + m - 1) : FieldStatus(ts[i], enc) # 0 }
         IN IF bad # {} THEN Stop(FieldStatus(ts[Min(bad)], enc))
            ELSE IF m < k THEN Stop(FAIL)
            ELSE At(p + k, [i \in 1..k |-> ts[p + i - 1][3]])

(* Fields of the given encodings from p on. *)
Fields(ts, p, encs) ==
    LET k == Len(encs)
        avail == Len(ts) - p + 1
        m == IF k < avail THEN k ELSE avail
        bad == { i \in 1..m : FieldStatus(ts[p + i - 1], encs[i]) # 0 }
    IN IF bad # {} THEN Stop(FieldStatus(ts[p + Min(bad) - 1], encs[Min(bad)]))
       ELSE IF m < k THEN Stop(FAIL)
       ELSE At(p + k, [i \in 1..k |-> ts[p + i - 1][3]])

(* A counted list: its length, then that many fields. *)
Counted(ts, p, encN, enc) ==
    LET c == Take(ts, p, 1, encN)
    IN IF c.p < 0 THEN c ELSE Take(ts, c.p, c.v[1], enc)

(* The separator before a raw body. *)
SkipNL(ts, p) ==
    IF p > Len(ts) THEN p
    ELSE IF ts[p][2] = "nl" THEN p + 1
    ELSE UNSPEC

(* A quoted string.  A word that is not quoted is taken as it stands; the
   model keeps only that it was read (value -1). *)
TakeString(ts, p) ==
    IF p > Len(ts) THEN Stop(FAIL)
    ELSE IF ts[p][2] = "s" THEN At(p + 1, ts[p][3])
    ELSE IF ts[p][1] = 0 /\ ts[p][2] # "nl" THEN At(p + 1, -1)
    ELSE Stop(UNSPEC)

RECURSIVE TakeStrings(_, _, _, _)
TakeStrings(ts, p, k, acc) ==
    IF k < 0 THEN Stop(UNSPEC)
    ELSE IF k = 0 THEN At(p, acc)
    ELSE LET r == TakeString(ts, p)
         IN IF r.p < 0 THEN r ELSE TakeStrings(ts, r.p, k - 1, Append(acc, r.v))

----------------------------------------------------------------------------
(* $MeshFormat *)
ReadFormat(ts, p, s) ==
    IF p > Len(ts) THEN Stop(FAIL)
    ELSE LET ver == ts[p][3]
             h == Fields(ts, p + 1, <<0, 0>>)
         IN IF ts[p][2] # "w" THEN Stop(IF ts[p][1] = 0 THEN UNSUPP ELSE UNSPEC)
            ELSE IF ver \notin {"2.2", "4.1"} THEN Stop(UNSUPP)
            ELSE IF h.p < 0 THEN h
            ELSE IF ver = "4.1" /\ h.v[2] # 8 THEN Stop(UNSUPP)
            ELSE LET f == [ver |-> ver, bin |-> h.v[1], dsz |-> h.v[2]]
                 IN IF h.v[1] = 0 THEN At(h.p, [s EXCEPT !.fmt = f])
                    ELSE LET q == SkipNL(ts, h.p)
                         IN IF q < 0 THEN Stop(q)
                            ELSE IF q > Len(ts) THEN Stop(FAIL)
                            ELSE IF ts[q] = Tok(4, "m", 1) THEN At(q + 1, [s EXCEPT !.fmt = f])
                            ELSE IF ts[q][1] = 4 THEN Stop(UNSUPP) ELSE Stop(UNSPEC)

----------------------------------------------------------------------------
(* $Nodes *)
RECURSIVE ReadNodeBlocks(_, _, _, _, _, _)
ReadNodeBlocks(ts, p, k, e4, e8, acc) ==
    IF k < 0 THEN Stop(UNSPEC)
    ELSE IF k = 0 THEN At(p, acc)
    ELSE LET h == Fields(ts, p, <<e4, e4, e4, e8>>) IN
         IF h.p < 0 THEN h
         ELSE LET st == 3 + (IF h.v[3] = 1 THEN h.v[1] ELSE 0)
                  tg == Take(ts, h.p, h.v[4], e8) IN
         IF tg.p < 0 THEN tg
         ELSE LET dt == Take(ts, tg.p, h.v[4] * st, e8) IN
         IF dt.p < 0 THEN dt
         ELSE ReadNodeBlocks(ts, dt.p, k - 1, e4, e8,
                Append(acc, [dim |-> h.v[1], etag |-> h.v[2], par |-> h.v[3], n |-> h.v[4],
                             tags |-> tg.v, data |-> dt.v]))

ReadNodes41(ts, p0, s) ==
    LET bin == s.fmt.bin # 0
        e8 == IF bin THEN 8 ELSE 0
        e4 == IF bin THEN 4 ELSE 0
        p  == IF bin THEN SkipNL(ts, p0) ELSE p0
    IN IF p < 0 THEN Stop(p)
       ELSE LET h == Fields(ts, p, <<e8, e8, e8, e8>>) IN
       IF h.p < 0 THEN h
       ELSE LET b == ReadNodeBlocks(ts, h.p, h.v[1], e4, e8, <<>>) IN
       IF b.p < 0 THEN b
       ELSE At(b.p, [s EXCEPT !.nodes = [nb |-> h.v[1], nn |-> h.v[2], mn |-> h.v[3],
                                         mx |-> h.v[4], blocks |-> b.v]])

(* 2.2: a flat list, kept as one block until regrouping; repeated sections
   add up. *)
ReadNodes22(ts, p, s) ==
    LET bin == s.fmt.bin # 0
        c == Take(ts, p, 1, 0)
    IN IF c.p < 0 THEN c
       ELSE LET n == c.v[1]
                q == IF bin THEN SkipNL(ts, c.p) ELSE c.p
                e == IF bin THEN <<4, 8, 8, 8>> ELSE <<0, 0, 0, 0>>
       IN IF n < 0 THEN Stop(UNSPEC)
       ELSE IF q < 0 THEN Stop(q)
       ELSE LET r == Fields(ts, q, FlattenSeq([i \in 1..n |-> e])) IN
       IF r.p < 0 THEN r
       ELSE LET b == [dim |-> 0, etag |-> 0, par |-> 0, n |-> n,
                      tags |-> [i \in 1..n |-> r.v[4*(i-1) + 1]],
                      data |-> [j \in 1..(3*n) |-> r.v[j + ((j-1) \div 3) + 1]]]
            IN At(r.p, [s EXCEPT !.nodes.blocks = Append(@, b), !.nodes.nn = @ + n])

----------------------------------------------------------------------------
(* $Elements *)
RECURSIVE ReadElemBlocks(_, _, _, _, _, _)
ReadElemBlocks(ts, p, k, e4, e8, acc) ==
    IF k < 0 THEN Stop(UNSPEC)
    ELSE IF k = 0 THEN At(p, acc)
    ELSE LET h == Fields(ts, p, <<e4, e4, e4, e8>>) IN
         IF h.p < 0 THEN h
         ELSE IF ~IsElementType(h.v[3]) THEN Stop(UNSUPP)
         ELSE LET dt == Take(ts, h.p, h.v[4] * (ElementSize[h.v[3]] + 1), e8) IN
         IF dt.p < 0 THEN dt
         ELSE ReadElemBlocks(ts, dt.p, k - 1, e4, e8,
                Append(acc, [dim |-> h.v[1], etag |-> h.v[2], type |-> h.v[3], n |-> h.v[4],
                             data |-> dt.v]))

ReadElems41(ts, p0, s) ==
    LET bin == s.fmt.bin # 0
        e8 == IF bin THEN 8 ELSE 0
        e4 == IF bin THEN 4 ELSE 0
        p  == IF bin THEN SkipNL(ts, p0) ELSE p0
    IN IF p < 0 THEN Stop(p)
       ELSE LET h == Fields(ts, p, <<e8, e8, e8, e8>>) IN
       IF h.p < 0 THEN h
       ELSE LET b == ReadElemBlocks(ts, h.p, h.v[1], e4, e8, <<>>) IN
       IF b.p < 0 THEN b
       ELSE At(b.p, [s EXCEPT !.elems = [nb |-> h.v[1], ne |-> h.v[2], mn |-> h.v[3],
                                         mx |-> h.v[4], blocks |-> b.v]])

(* One 2.2 element: [etags |-> its tags, b |-> a block of one element]. *)
Elem22(type, etags, tag, nodes) ==
    [ etags |-> etags,
      b |-> [ dim |-> ElementDim[type],
              etag |-> IF Len(etags) > 1 THEN etags[2] ELSE IF Len(etags) = 1 THEN etags[1] ELSE 1,
              type |-> type, n |-> 1, data |-> <<tag>> \o nodes ] ]

RECURSIVE ReadElems22Ascii(_, _, _, _)
ReadElems22Ascii(ts, p, k, acc) ==
    IF k = 0 THEN At(p, acc)
    ELSE LET h == Fields(ts, p, <<0, 0, 0>>) IN
         IF h.p < 0 THEN h
         ELSE LET tg == Take(ts, h.p, h.v[3], 0) IN
         IF tg.p < 0 THEN tg
         ELSE IF ~IsElementType(h.v[2]) THEN Stop(UNSUPP)
         ELSE LET nd == Take(ts, tg.p, ElementSize[h.v[2]], 0) IN
         IF nd.p < 0 THEN nd
         ELSE ReadElems22Ascii(ts, nd.p, k - 1, Append(acc, Elem22(h.v[2], tg.v, h.v[1], nd.v)))

(* Binary: groups of elements that share type and number of tags. *)
RECURSIVE ReadGroup22(_, _, _, _, _, _)
ReadGroup22(ts, p, g, type, ntags, acc) ==
    IF g = 0 THEN At(p, acc)
    ELSE LET w == 1 + ntags + ElementSize[type]
             r == Take(ts, p, w, 4)
         IN IF r.p < 0 THEN r
            ELSE ReadGroup22(ts, r.p, g - 1, type, ntags,
                   Append(acc, Elem22(type, SubSeq(r.v, 2, 1 + ntags), r.v[1], SubSeq(r.v, 2 + ntags, w))))

RECURSIVE ReadElems22Binary(_, _, _, _)
ReadElems22Binary(ts, p, k, acc) ==
    IF k = 0 THEN At(p, acc)
    ELSE LET h == Fields(ts, p, <<4, 4, 4>>) IN
         IF h.p < 0 THEN h
         ELSE IF h.v[3] < 0 THEN Stop(UNSPEC)
         ELSE IF ~IsElementType(h.v[1]) THEN Stop(UNSUPP)
         ELSE LET g == ReadGroup22(ts, h.p, IF h.v[2] < k THEN h.v[2] ELSE k, h.v[1], h.v[3], <<>>) IN
         IF g.p < 0 THEN g
         ELSE IF h.v[2] > k THEN Stop(INVALID)      \* more elements than announced
         ELSE ReadElems22Binary(ts, g.p, k - h.v[2], acc \o g.v)

(* Entity records: one per elementary tag of the elements with at least two
   tags, in increasing order, with the set of their first tags. *)
EntsFromElems(els, dim) ==
    LET mine == { i \in 1..Len(els) : els[i].b.dim = dim /\ Len(els[i].etags) > 1 }
        tags == SetToSortSeq({ els[i].etags[2] : i \in mine }, <)
    IN [j \in 1..Len(tags) |->
          [tag |-> tags[j],
           phys |-> SetToSortSeq({ els[i].etags[1] : i \in { i \in mine : els[i].etags[2] = tags[j] } }, <)]]

(* A box of zeroes: double 0 is the number zero. *)
ZeroBox(n) == [i \in 1..n |-> 0]
PointEnts(q)  == [i \in 1..Len(q) |-> [tag |-> q[i].tag, box |-> ZeroBox(3), phys |-> q[i].phys]]
HigherEnts(q) == [i \in 1..Len(q) |-> [tag |-> q[i].tag, box |-> ZeroBox(6), phys |-> q[i].phys, bnd |-> <<>>]]

ReadElems22(ts, p, s) ==
    LET bin == s.fmt.bin # 0
        c == Take(ts, p, 1, 0)
    IN IF c.p < 0 THEN c
       ELSE LET n == c.v[1]
                q == IF bin THEN SkipNL(ts, c.p) ELSE c.p
       IN IF n < 0 THEN Stop(UNSPEC)
       ELSE IF q < 0 THEN Stop(q)
       ELSE LET r == IF bin THEN ReadElems22Binary(ts, q, n, <<>>) ELSE ReadElems22Ascii(ts, q, n, <<>>) IN
       IF r.p < 0 THEN r
       ELSE At(r.p, [s EXCEPT !.elems.blocks = @ \o [i \in 1..n |-> r.v[i].b],
                              !.elems.ne = @ + n,
                              !.ents.p = @ \o PointEnts(EntsFromElems(r.v, 0)),
                              !.ents.c = @ \o HigherEnts(EntsFromElems(r.v, 1)),
                              !.ents.s = @ \o HigherEnts(EntsFromElems(r.v, 2)),
                              !.ents.v = @ \o HigherEnts(EntsFromElems(r.v, 3))])

----------------------------------------------------------------------------
(* $Entities *)
RECURSIVE ReadEnts(_, _, _, _, _, _, _)
ReadEnts(ts, p, k, e4, e8, point, acc) ==
    IF k < 0 THEN Stop(UNSPEC)
    ELSE IF k = 0 THEN At(p, acc)
    ELSE LET t == Take(ts, p, 1, e4) IN
         IF t.p < 0 THEN t
         ELSE LET x == Take(ts, t.p, IF point THEN 3 ELSE 6, e8) IN
         IF x.p < 0 THEN x
         ELSE LET g == Counted(ts, x.p, e8, e4) IN
         IF g.p < 0 THEN g
         ELSE IF point
         THEN ReadEnts(ts, g.p, k - 1, e4, e8, point, Append(acc, [tag |-> t.v[1], box |-> x.v, phys |-> g.v]))
         ELSE LET b == Counted(ts, g.p, e8, e4) IN
         IF b.p < 0 THEN b
         ELSE ReadEnts(ts, b.p, k - 1, e4, e8, point,
                Append(acc, [tag |-> t.v[1], box |-> x.v, phys |-> g.v, bnd |-> b.v]))

ReadEntities(ts, p0, s) ==
    LET bin == s.fmt.bin # 0
        e8 == IF bin THEN 8 ELSE 0
        e4 == IF bin THEN 4 ELSE 0
        p  == IF bin THEN SkipNL(ts, p0) ELSE p0
    IN IF s.fmt.ver = "2.2" THEN Stop(INVALID)
       ELSE IF p < 0 THEN Stop(p)
       ELSE LET h == Fields(ts, p, <<e8, e8, e8, e8>>) IN
       IF h.p < 0 THEN h
       ELSE LET a == ReadEnts(ts, h.p, h.v[1], e4, e8, TRUE, <<>>) IN
       IF a.p < 0 THEN a
       ELSE LET b == ReadEnts(ts, a.p, h.v[2], e4, e8, FALSE, <<>>) IN
       IF b.p < 0 THEN b
       ELSE LET c == ReadEnts(ts, b.p, h.v[3], e4, e8, FALSE, <<>>) IN
       IF c.p < 0 THEN c
       ELSE LET d == ReadEnts(ts, c.p, h.v[4], e4, e8, FALSE, <<>>) IN
       IF d.p < 0 THEN d
       ELSE At(d.p, [s EXCEPT !.ents = [p |-> a.v, c |-> b.v, s |-> c.v, v |-> d.v]])

----------------------------------------------------------------------------
(* $PhysicalNames *)
RECURSIVE ReadPhysList(_, _, _, _)
ReadPhysList(ts, p, k, acc) ==
    IF k < 0 THEN Stop(UNSPEC)
    ELSE IF k = 0 THEN At(p, acc)
    ELSE LET h == Fields(ts, p, <<0, 0>>) IN
         IF h.p < 0 THEN h
         ELSE LET n == TakeString(ts, h.p) IN
         IF n.p < 0 THEN n
         ELSE ReadPhysList(ts, n.p, k - 1, Append(acc, [dim |-> h.v[1], tag |-> h.v[2], name |-> n.v]))

ReadPhys(ts, p, s) ==
    LET c == Take(ts, p, 1, 0) IN
    IF c.p < 0 THEN c
    ELSE LET r == ReadPhysList(ts, c.p, c.v[1], <<>>) IN
    IF r.p < 0 THEN r ELSE At(r.p, [s EXCEPT !.phys = r.v])

----------------------------------------------------------------------------
(* $NodeData, $ElementData, $ElementNodeData *)
RECURSIVE ReadEntries(_, _, _, _, _, _, _, _)
ReadEntries(ts, p, k, f, e4, e8, perNode, acc) ==
    IF k = 0 THEN At(p, acc)
    ELSE LET h == Fields(ts, p, IF perNode THEN <<e4, e4>> ELSE <<e4>>) IN
         IF h.p < 0 THEN h
         ELSE IF perNode /\ h.v[2] < 0 THEN Stop(FAIL)
         ELSE LET npe == IF perNode THEN h.v[2] ELSE 0
                  d == Take(ts, h.p, IF perNode THEN f * npe ELSE f, e8) IN
         IF d.p < 0 THEN d
         ELSE ReadEntries(ts, d.p, k - 1, f, e4, e8, perNode,
                Append(acc, [tag |-> h.v[1], npe |-> npe, data |-> d.v]))

ReadDataSet(ts, p, s, perNode) ==
    LET bin == s.fmt.bin # 0
        ns == Take(ts, p, 1, 0) IN
    IF ns.p < 0 THEN ns
    ELSE LET st == TakeStrings(ts, ns.p, ns.v[1], <<>>) IN
    IF st.p < 0 THEN st
    ELSE LET rt == Counted(ts, st.p, 0, 0) IN
    IF rt.p < 0 THEN rt
    ELSE LET it == Counted(ts, rt.p, 0, 0) IN
    IF it.p < 0 THEN it
    ELSE IF Len(it.v) < 3 THEN Stop(INVALID)
    ELSE IF it.v[2] < 0 \/ it.v[3] < 0 THEN Stop(FAIL)
    ELSE LET q == IF bin THEN SkipNL(ts, it.p) ELSE it.p IN
    IF q < 0 THEN Stop(q)
    ELSE LET es == ReadEntries(ts, q, it.v[3], it.v[2], IF bin THEN 4 ELSE 0, IF bin THEN 8 ELSE 0, perNode, <<>>) IN
    IF es.p < 0 THEN es
    ELSE At(es.p, [st |-> st.v, rt |-> rt.v, it |-> it.v, entries |-> es.v])

----------------------------------------------------------------------------
(* Custom sections *)
ReadNsf(ts, p, s) ==
    IF p > Len(ts) THEN Stop(FAIL)
    ELSE IF ts[p][1] = 0 /\ ts[p][2] # "nl"    \* any word; the model only knows version words
    THEN At(p + 1, [s EXCEPT !.nsf = IF ts[p][2] = "w" THEN ts[p][3] ELSE "?"])
    ELSE Stop(UNSPEC)

RECURSIVE ReadCurveList(_, _, _, _, _)
ReadCurveList(ts, p, k, bin, acc) ==
    IF k < 0 THEN Stop(UNSPEC)
    ELSE IF k = 0 THEN At(p, acc)
    ELSE LET h == Take(ts, p, 6, 0) IN
         IF h.p < 0 THEN h
         ELSE LET q == IF bin THEN SkipNL(ts, h.p) ELSE h.p
                  c == [tag |-> h.v[1], type |-> h.v[2], deg |-> h.v[3], ncp |-> h.v[4], nk |-> h.v[5], w |-> h.v[6]] IN
         IF q < 0 THEN Stop(q)
         ELSE LET d == Take(ts, q, CurveLen(c), IF bin THEN 8 ELSE 0) IN
         IF d.p < 0 THEN d
         ELSE ReadCurveList(ts, d.p, k - 1, bin,
                Append(acc, [tag |-> c.tag, type |-> c.type, deg |-> c.deg, ncp |-> c.ncp, nk |-> c.nk,
                             w |-> c.w, data |-> d.v]))

RECURSIVE ReadPatchList(_, _, _, _, _)
ReadPatchList(ts, p, k, bin, acc) ==
    IF k < 0 THEN Stop(UNSPEC)
    ELSE IF k = 0 THEN At(p, acc)
    ELSE LET h == Take(ts, p, 8, 0) IN
         IF h.p < 0 THEN h
         ELSE LET q == IF bin THEN SkipNL(ts, h.p) ELSE h.p
                  c == [tag |-> h.v[1], type |-> h.v[2], du |-> h.v[3], dv |-> h.v[4],
                        ncp |-> h.v[5], nu |-> h.v[6], nv |-> h.v[7], w |-> h.v[8]] IN
         IF q < 0 THEN Stop(q)
         ELSE LET d == Take(ts, q, PatchLen(c), IF bin THEN 8 ELSE 0) IN
         IF d.p < 0 THEN d
         ELSE ReadPatchList(ts, d.p, k - 1, bin,
                Append(acc, [tag |-> c.tag, type |-> c.type, du |-> c.du, dv |-> c.dv, ncp |-> c.ncp,
                             nu |-> c.nu, nv |-> c.nv, w |-> c.w, data |-> d.v]))

ReadCurves(ts, p, s) ==
    LET c == Take(ts, p, 1, 0) IN
    IF c.p < 0 THEN c
    ELSE LET r == ReadCurveList(ts, c.p, c.v[1], s.fmt.bin # 0, <<>>) IN
    IF r.p < 0 THEN r ELSE At(r.p, [s EXCEPT !.curves = r.v])

ReadPatches(ts, p, s) ==
    LET c == Take(ts, p, 1, 0) IN
    IF c.p < 0 THEN c
    ELSE LET r == ReadPatchList(ts, c.p, c.v[1], s.fmt.bin # 0, <<>>) IN
    IF r.p < 0 THEN r ELSE At(r.p, [s EXCEPT !.patches = r.v])

----------------------------------------------------------------------------
(***************************************************************************)
(* One section.  `p' is the position after the opening marker; the value   *)
(* is the description so far with this section's content.                  *)
(***************************************************************************)
ReadBody(name, ts, p, s, ext) ==
    CASE name = "$MeshFormat"      -> ReadFormat(ts, p, s)
      [] name = "$Entities"        -> ReadEntities(ts, p, s)
      [] name = "$PhysicalNames"   -> ReadPhys(ts, p, s)
      [] name = "$Nodes"           -> IF s.fmt.ver = "4.1" THEN ReadNodes41(ts, p, s) ELSE ReadNodes22(ts, p, s)
      [] name = "$Elements"        -> IF s.fmt.ver = "4.1" THEN ReadElems41(ts, p, s) ELSE ReadElems22(ts, p, s)
      [] name = "$NodeData"        -> LET r == ReadDataSet(ts, p, s, FALSE) IN
                                      IF r.p < 0 THEN r ELSE At(r.p, [s EXCEPT !.nd = Append(@, r.v)])
      [] name = "$ElementData"     -> LET r == ReadDataSet(ts, p, s, FALSE) IN
                                      IF r.p < 0 THEN r ELSE At(r.p, [s EXCEPT !.ed = Append(@, r.v)])
      [] name = "$ElementNodeData" -> LET r == ReadDataSet(ts, p, s, TRUE) IN
                                      IF r.p < 0 THEN r ELSE At(r.p, [s EXCEPT !.end = Append(@, r.v)])
      [] name = "$NanoSplineFormat" -> ReadNsf(ts, p, s)    \* read whether the extension is on or not
      [] name = "$Curves"  /\ ext  -> ReadCurves(ts, p, s)
      [] name = "$Patches" /\ ext  -> ReadPatches(ts, p, s)
      [] OTHER                     -> At(p, s)            \* unknown: skipped

EndMarker(name) == "$End" \o SubSeq(name, 2, Len(name))

(* The first end marker of the section at or after p. *)
ForwardTo(ts, p, name) ==
    LET found == { i \in p..Len(ts) : ts[i] = KW(EndMarker(name)) }
    IN IF found = {} THEN FAIL ELSE Min(found) + 1

ReadSection(ts, p, s, ext) ==
    LET name == ts[p][3]
        r == ReadBody(name, ts, p + 1, s, ext)
    IN IF r.p < 0 THEN r
       ELSE LET q == ForwardTo(ts, r.p, name)
            IN IF q < 0 THEN Stop(q) ELSE At(q, r.v)

----------------------------------------------------------------------------
(***************************************************************************)
(* After a 2.2 file: totals, tag ranges, and regrouping.                   *)
(***************************************************************************)

(* The entity of a node: that of the last element using it.  Uses[i] are
   the nodes of element i. *)
Owner(blocks, Uses, tag) ==
    LET users == { i \in 1..Len(blocks) : tag \in Uses[i] }
    IN IF users = {} THEN << 0, 0 >> ELSE << blocks[Max(users)].dim, blocks[Max(users)].etag >>

(* Cut a list into maximal runs of equal keys. *)
Runs(q, Key(_)) ==
    FoldLeft(LAMBDA acc, x :
        IF acc # <<>> /\ Key(acc[Len(acc)][1]) = Key(x)
        THEN [acc EXCEPT ![Len(acc)] = Append(@, x)]
        ELSE Append(acc, <<x>>),
      <<>>, q)

RegroupNodes(s) ==
    LET L    == NodeList(s)
        tags == { L[i][1] : i \in 1..Len(L) }
        Uses == [i \in 1..Len(s.elems.blocks) |-> ToSet(Tail(s.elems.blocks[i].data))]
        own  == [t \in tags |-> Owner(s.elems.blocks, Uses, t)]
        Key(x) == own[x[1]]
        R    == Runs(L, Key)
    IN [ nb |-> Len(R), nn |-> Len(L),
         mn |-> IF L = <<>> THEN 0 ELSE Min(tags),
         mx |-> IF L = <<>> THEN 0 ELSE Max(tags),
         blocks |-> [i \in 1..Len(R) |->
             [ dim |-> own[R[i][1][1]][1], etag |-> own[R[i][1][1]][2], par |-> 0, n |-> Len(R[i]),
               tags |-> [j \in 1..Len(R[i]) |-> R[i][j][1]],
               data |-> FlattenSeq([j \in 1..Len(R[i]) |-> Tail(R[i][j])]) ]] ]

RegroupElems(s) ==
    LET B    == s.elems.blocks
        tags == { B[i].data[1] : i \in 1..Len(B) }
        Key(b) == << b.dim, b.etag, b.type >>
        R    == Runs(B, Key)
    IN [ nb |-> Len(R), ne |-> Len(B),
         mn |-> IF B = <<>> THEN 0 ELSE Min(tags),
         mx |-> IF B = <<>> THEN 0 ELSE Max(tags),
         blocks |-> [i \in 1..Len(R) |->
             [ dim |-> R[i][1].dim, etag |-> R[i][1].etag, type |-> R[i][1].type, n |-> Len(R[i]),
               data |-> FlattenSeq([j \in 1..Len(R[i]) |-> R[i][j].data]) ]] ]

PostProcess(s) ==
    IF s.fmt.ver = "2.2" THEN [s EXCEPT !.nodes = RegroupNodes(s), !.elems = RegroupElems(s)] ELSE s

----------------------------------------------------------------------------
(* The whole load as one function (the state machine in MshIO takes it one
   section at a time). *)
RECURSIVE ReadFrom(_, _, _, _)
ReadFrom(ts, p, s, ext) ==
    IF p > Len(ts) THEN At(p, PostProcess(s))
    ELSE IF ~IsKW(ts[p]) THEN ReadFrom(ts, p + 1, s, ext)
    ELSE LET r == ReadSection(ts, p, s, ext)
         IN IF r.p < 0 THEN r ELSE ReadFrom(ts, r.p, r.v, ext)

ReadAll(ts, ext) == ReadFrom(ts, 1, EmptySpec, ext)
=============================================================================
