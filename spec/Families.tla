------------------------------ MODULE Families ------------------------------
(***************************************************************************)
(* Bounded sets of mesh descriptions and of files.  Each family is         *)
(* exhaustive in one direction and small in the others.                    *)
(***************************************************************************)
EXTENDS MshIO, IOUtils

Thorough == IOEnv.MSH_TIER = "thorough"

----------------------------------------------------------------------------
(* Builders.  Doubles are numbered by position so that no two fields agree. *)
Ids(base, n) == [i \in 1..n |-> base + i]

NodeBlk(dim, etag, par, tags, base) ==
    [ dim |-> dim, etag |-> etag, par |-> par, n |-> Len(tags), tags |-> tags,
      data |-> Ids(base, Len(tags) * (3 + (IF par = 1 THEN dim ELSE 0))) ]

NodesOf(blocks, mn, mx) ==
    [ nb |-> Len(blocks), nn |-> SumSeq([i \in 1..Len(blocks) |-> blocks[i].n]),
      mn |-> mn, mx |-> mx, blocks |-> blocks ]

(* Elements: each <<tag, nodes>>. *)
ElemBlk(dim, etag, type, els) ==
    [ dim |-> dim, etag |-> etag, type |-> type, n |-> Len(els),
      data |-> FlattenSeq([i \in 1..Len(els) |-> << els[i][1] >> \o els[i][2]]) ]

ElemsOf(blocks, mn, mx) ==
    [ nb |-> Len(blocks), ne |-> SumSeq([i \in 1..Len(blocks) |-> blocks[i].n]),
      mn |-> mn, mx |-> mx, blocks |-> blocks ]

(* An element of a type: nodes first, first+1, ... wrapping within lo..hi. *)
Wrapped(type, first, lo, hi) ==
    [j \in 1..ElementSize[type] |-> lo + ((first + j - 1) % (hi - lo + 1))]

DataSet(st, rt, it, entries) == [st |-> st, rt |-> rt, it |-> it, entries |-> entries]
Entry(tag, npe, vals) == [tag |-> tag, npe |-> npe, data |-> vals]

Point(tag, base, phys) == [tag |-> tag, box |-> Ids(base, 3), phys |-> phys]
Ent(tag, base, phys, bnd) == [tag |-> tag, box |-> Ids(base, 6), phys |-> phys, bnd |-> bnd]

----------------------------------------------------------------------------
(* One small description with something in every section. *)
BaseNodes == NodesOf(<< NodeBlk(0, 1, 0, <<1>>, 0), NodeBlk(1, 2, 0, <<2, 4>>, 10), NodeBlk(2, 1, 0, <<3, 5, 6>>, 20) >>, 1, 6)
BaseElems == ElemsOf(<< ElemBlk(0, 1, 15, << <<1, <<1>> >> >>),
                        ElemBlk(1, 2, 1, << <<2, <<1, 2>> >>, <<3, <<2, 4>> >> >>),
                        ElemBlk(2, 1, 2, << <<4, <<2, 3, 5>> >>, <<6, <<3, 5, 6>> >> >>) >>, 1, 6)
BaseEnts == [ p |-> << Point(1, 40, <<>>) >>,
              c |-> << Ent(2, 45, <<7>>, <<1, 1>>) >>,
              s |-> << Ent(1, 55, <<8, 7>>, <<2>>) >>,
              v |-> <<>> ]
BasePhys == << [dim |-> 1, tag |-> 7, name |-> 1], [dim |-> 2, tag |-> 8, name |-> 2] >>
BaseND  == DataSet(<<3>>, <<60>>, <<0, 1, 2>>, << Entry(1, 0, <<61>>), Entry(4, 0, <<62>>) >>)
BaseED  == DataSet(<<4, 5>>, <<63>>, <<1, 3, 1, 2>>, << Entry(4, 0, <<64, 65, 66>>) >>)
BaseEND == DataSet(<<6>>, <<67>>, <<2, 1, 2>>, << Entry(2, 2, <<68, 69>>), Entry(4, 3, <<70, 71, 72>>) >>)
BaseCurve == [tag |-> 1, type |-> 2, deg |-> 3, ncp |-> 2, nk |-> 3, w |-> 1, data |-> Ids(80, 11)]
BasePatch == [tag |-> 4, type |-> 5, du |-> 6, dv |-> 7, ncp |-> 2, nu |-> 1, nv |-> 3, w |-> 0, data |-> Ids(95, 10)]

Base == [EmptySpec EXCEPT !.nodes = BaseNodes, !.elems = BaseElems, !.ents = BaseEnts, !.phys = BasePhys,
                          !.nd = <<BaseND>>, !.ed = <<BaseED>>, !.end = <<BaseEND>>]
BaseExt == [Base EXCEPT !.nsf = "1.2", !.curves = <<BaseCurve>>, !.patches = <<BasePatch>>]

(* A smaller one, for damage. *)
Small == [EmptySpec EXCEPT
    !.nodes = NodesOf(<< NodeBlk(1, 2, 1, <<1, 2>>, 10), NodeBlk(2, 3, 0, <<3>>, 20) >>, 1, 3),
    !.elems = ElemsOf(<< ElemBlk(2, 3, 2, << <<1, <<1, 2, 3>> >> >>), ElemBlk(0, 3, 15, << <<2, <<1>> >>, <<3, <<3>> >> >>) >>, 1, 3),
    !.ents  = [p |-> << Point(3, 30, <<2>>) >>, c |-> <<Ent(2, 34, <<>>, <<3>>)>>, s |-> << Ent(3, 41, <<4, 2>>, <<2>>) >>, v |-> <<>>],
    !.phys  = << [dim |-> 2, tag |-> 4, name |-> 1], [dim |-> 0, tag |-> 2, name |-> 2] >>,
    !.nd    = << DataSet(<<3>>, <<50>>, <<0, 1, 1>>, << Entry(2, 0, <<51>>) >>) >>,
    !.end   = << DataSet(<<4, 5>>, <<>>, <<1, 1, 1>>, << Entry(1, 3, <<52, 53, 54>>) >>) >>]

SmallExt == [Small EXCEPT !.nsf = "1.2",
    !.curves = << [tag |-> 1, type |-> 2, deg |-> 1, ncp |-> 1, nk |-> 2, w |-> 0, data |-> Ids(60, 5)] >>,
    !.patches = << [tag |-> 1, type |-> 2, du |-> 1, dv |-> 1, ncp |-> 1, nu |-> 1, nv |-> 1, w |-> 1, data |-> Ids(70, 6)] >>]

----------------------------------------------------------------------------
(* Node blocks: every pair of shapes, three tag patterns. *)
BlkShapes == [dim : 0..3, par : {0, 1}, n : 0..2]
TagPatterns == { <<1, 2, 3, 4>>, <<4, 3, 2, 1>>, <<5, 1, 9, 2>> }
NodesFam(unused) ==
    { [EmptySpec EXCEPT !.nodes =
         NodesOf(<< NodeBlk(a.dim, e, a.par, SubSeq(t, 1, a.n), 0),
                    NodeBlk(b.dim, 3 - e, b.par, SubSeq(t, a.n + 1, a.n + b.n), 20) >>,
                 IF t[1] = 5 THEN 0 ELSE 1, IF t[1] = 5 THEN 12 ELSE 4)]
      : a \in {x \in BlkShapes : Thorough \/ x.n # 2 \/ x.dim = 2}, b \in BlkShapes, e \in {1},
        t \in (IF Thorough THEN TagPatterns ELSE { <<5, 1, 9, 2>> }) }
    \cup { [EmptySpec EXCEPT !.nodes = NodesOf(<< NodeBlk(a.dim, e, a.par, SubSeq(t, 1, a.n), 0) >>, t[2], 12)]
      : a \in [dim : 0..3, par : 0..3, n : 0..4], e \in {-1, 0, 2}, t \in { <<1, 1, 3, 4>>, <<9, 3, 9, 7>> } }
    \cup { [EmptySpec EXCEPT !.nodes = NodesOf(<< NodeBlk(0, 1, 0, <<3>>, 0), NodeBlk(d, 2, p, <<5, 4>>, 5), NodeBlk(1, 1, p, <<1>>, 20) >>, 1, 5)]
      : d \in 0..3, p \in {0, 1} }

(* Element blocks: every type, alone and before every other type. *)
Pool == NodesOf(<< NodeBlk(0, 1, 0, <<2, 3>>, 0), NodeBlk(3, 4, 0, <<5, 7, 8, 9>>, 10) >>, 2, 60)
ElemsFam(unused) ==
    { [EmptySpec EXCEPT !.nodes = Pool,
                        !.elems = ElemsOf(<< ElemBlk(IF d = 9 THEN ElementDim[t] ELSE d, e, t,
                                     [i \in 1..n |-> << 10 + (IF o = 1 THEN i ELSE n - i), Wrapped(t, 5 * i, 2, 60) >>]) >>, 10, 14)]
      : t \in ElementTypes, n \in 1..2, d \in {9} , e \in {1, 2}, o \in {1, 2} }
    \cup
    { [EmptySpec EXCEPT !.nodes = Pool,
                        !.elems = ElemsOf(<< ElemBlk(ElementDim[x[1]], 1, x[1], << <<3, Wrapped(x[1], 0, 2, 9)>> >>),
                                             ElemBlk(ElementDim[x[2]], e, x[2], << <<2, Wrapped(x[2], 3, 2, 9)>> >>) >>, 1, 4)]
      : x \in { y \in ElementTypes \X ElementTypes : Thorough \/ ElementDim[y[1]] = ElementDim[y[2]] \/ y[1] \in {1, 15, 31} }, e \in {1, 2} }
    \cup   \* blocks whose dimension is not the type's, empty blocks
    { [EmptySpec EXCEPT !.nodes = Pool,
                        !.elems = ElemsOf(<< ElemBlk(d, 0, t, <<>>), ElemBlk(d, -2, t, << <<5, Wrapped(t, 0, 2, 9)>> >>), ElemBlk(d, 1, u, <<>>) >>, 5, 5)]
      : d \in 0..3, t \in {1, 2, 15}, u \in {1, 3} }

(* Entities. *)
EntLists == { <<>>, <<4>>, <<4, -1>> }
EntsFam(unused) ==
    { [EmptySpec EXCEPT !.ents = [p |-> [i \in 1..np |-> Point(4 - i, 10 * i, f)],
                                  c |-> [i \in 1..nc |-> Ent(i, 30 + 10 * i, f, g)],
                                  s |-> [i \in 1..ns |-> Ent(-i, 60 + 10 * i, g, f)],
                                  v |-> [i \in 1..nv |-> Ent(7, 90 + 10 * i, g, g)]]]
      : np \in 0..2, nc \in 0..2, ns \in 0..2, nv \in 0..2, f \in EntLists, g \in EntLists }

(* Physical groups: order, repetition, same tag in different dimensions. *)
PhysRecs == [dim : 0..3, tag : {1, 3}, name : {1, 2}]
PhysFam(unused) ==
    { [EmptySpec EXCEPT !.phys = q] : q \in { <<a>> : a \in PhysRecs } \cup { <<a, b>> : a \in PhysRecs, b \in PhysRecs } }
    \cup { [Base EXCEPT !.phys = [i \in 1..n |-> [dim |-> i % 4, tag |-> n - i, name |-> i]]] : n \in {0, 3, 10, 13} }

(* Post-processing data. *)
DataRecs(perNode) ==
    { DataSet(Ids(0, a), Ids(50, b), << ts, f, n >> \o Ids(0, x),
              [i \in 1..n |-> Entry(3 - i, IF perNode THEN (IF mix = 1 THEN i ELSE npe) ELSE 0,
                                    Ids(10 * i, f * (IF perNode THEN (IF mix = 1 THEN i ELSE npe) ELSE 1)))])
      : a \in 0..2, b \in 0..2, ts \in {0, -3}, f \in {0, 1, 3}, n \in 0..2, x \in 0..1,
        npe \in (IF perNode THEN {0, 2} ELSE {0}), mix \in (IF perNode THEN {0, 1} ELSE {0}) }
DataFam(unused) ==
    { [EmptySpec EXCEPT !.nd = <<d>>] : d \in DataRecs(FALSE) }
    \cup { [EmptySpec EXCEPT !.ed = <<d>>] : d \in DataRecs(FALSE) }
    \cup { [EmptySpec EXCEPT !.end = <<d>>] : d \in { x \in DataRecs(TRUE) : Thorough \/ Len(x.st) + Len(x.rt) # 2 } }
    \cup { [EmptySpec EXCEPT !.nd = [i \in 1..k |-> [BaseND EXCEPT !.st = <<i>>, !.it[2] = 9, !.entries = [j \in 1..2 |-> Entry(j, 0, Ids(10 * j + 20 * i, 9))]]],
                             !.ed = [i \in 1..m |-> [BaseED EXCEPT !.rt = <<i>>]],
                             !.end = [i \in 1..n |-> [BaseEND EXCEPT !.st = <<7, i>>]]] : k \in 0..2, m \in 0..2, n \in 0..2 }

(* Every combination of sections. *)
ComboFam(unused) ==
    { [EmptySpec EXCEPT !.phys = IF 1 \in u THEN BasePhys ELSE <<>>,
                        !.ents = IF 2 \in u THEN BaseEnts ELSE EmptyEnts,
                        !.nodes = IF 3 \in u THEN BaseNodes ELSE [EmptyNodes EXCEPT !.mn = 1, !.mx = 6],
                        !.elems = IF 4 \in u THEN BaseElems ELSE EmptyElems,
                        !.nd = IF 5 \in u THEN <<BaseND>> ELSE <<>>,
                        !.ed = IF 6 \in u THEN <<BaseED, BaseED>> ELSE <<>>,
                        !.end = IF 7 \in u THEN <<BaseEND>> ELSE <<>>]
      : u \in SUBSET (1..7) }

(* Each section in turn is the last one to be written. *)
LastFam(unused) ==
    { [EmptySpec EXCEPT !.phys = BasePhys], [EmptySpec EXCEPT !.phys = BasePhys, !.ents = BaseEnts],
      [EmptySpec EXCEPT !.nodes = BaseNodes], [EmptySpec EXCEPT !.nodes = BaseNodes, !.elems = BaseElems],
      [EmptySpec EXCEPT !.elems = BaseElems], [EmptySpec EXCEPT !.ents = BaseEnts],
      [EmptySpec EXCEPT !.nd = <<BaseND>>], [EmptySpec EXCEPT !.nd = <<BaseND>>, !.ed = <<BaseED>>], EmptySpec }
LastExtFam(unused) ==
    { [EmptySpec EXCEPT !.curves = <<BaseCurve>>], [EmptySpec EXCEPT !.patches = <<BasePatch>>, !.curves = <<BaseCurve>>],
      [EmptySpec EXCEPT !.nodes = BaseNodes] }

(* Counts whose binary form looks like white space, and bigger ones. *)
Counts == {8, 9, 10, 11, 12, 13, 14, 32, 33, 36}
CountFam(unused) ==
    { [EmptySpec EXCEPT !.nodes = NodesOf(<< NodeBlk(0, n, 0, [i \in 1..n |-> i], 0) >>, 1, n)] : n \in Counts }
    \cup { [EmptySpec EXCEPT !.nodes = NodesOf([i \in 1..n |-> NodeBlk(i % 3, 10, i % 2, <<i>>, 5 * i)], 1, n)] : n \in Counts }
    \cup { [EmptySpec EXCEPT !.nodes = NodesOf(<< NodeBlk(0, n, 0, <<9, 10, 13, 32>>, 0) >>, 9, 32),
                             !.elems = ElemsOf(<< ElemBlk(2, n, 2, [i \in 1..n |-> <<i, <<9, 10, 13>> >>]) >>, 1, n)] : n \in Counts }
    \cup { [EmptySpec EXCEPT !.nodes = NodesOf(<< NodeBlk(0, 1, 0, <<9, 10, 13, 32>>, 0) >>, 9, 32),
                             !.elems = ElemsOf([i \in 1..n |-> ElemBlk(IF i % 2 = 0 THEN 0 ELSE 1, i, IF i % 2 = 0 THEN 15 ELSE 1, << <<i, IF i % 2 = 0 THEN <<9>> ELSE <<32, 13>> >> >>)], 1, n)] : n \in Counts }
    \cup { [EmptySpec EXCEPT !.ents = [EmptyEnts EXCEPT !.p = [i \in 1..n |-> Point(i, 3 * i, <<>>)], !.c = <<Ent(n, 1, Ids(0, n), Ids(n, n))>>]] : n \in Counts }
    \cup { [EmptySpec EXCEPT !.nd = << DataSet(<<1>>, <<2>>, <<0, f, n>>, [i \in 1..n |-> Entry(i, 0, Ids(i, f))]) >>,
                             !.ed = << DataSet(<<1>>, <<2>>, <<0, n, 1>>, << Entry(n, 0, Ids(3, n)) >>) >>,
                             !.end = << DataSet(<<1>>, <<2>>, <<n, 1, 2>>, << Entry(n, n, Ids(3, n)), Entry(1, 1, <<5>>) >>) >>] : n \in Counts, f \in {1, 3} }
    \cup { [EmptySpec EXCEPT !.phys = [i \in 1..n |-> [dim |-> i % 4, tag |-> i, name |-> i]]] : n \in Counts }

(* Long lists: every list there is, with n entries. *)
Ids2(n, base) == [i \in 1..n |-> Entry(base, 0, <<base>>)]
LongCounts == IF Thorough THEN {70, 140, 300, 600} ELSE {70, 300}
LongNodes(n) == NodesOf([i \in 1..n |-> NodeBlk(i % 4, i % 5, i % 2, <<i>>, 7 * i)], 1, n)
LongElems(n) == ElemsOf([i \in 1..n |-> ElemBlk(IF i % 2 = 0 THEN 0 ELSE 1, i % 3, IF i % 2 = 0 THEN 15 ELSE 1,
                                                 << <<n + 1 - i, IF i % 2 = 0 THEN <<i>> ELSE <<i, i>> >> >>)], 1, n)
LongEnts(n, k) == [p |-> [i \in 1..(IF k = 1 THEN n ELSE 1) |-> Point(i, 3 * i, IF k = 1 THEN << >> ELSE Ids(1, n))],
                   c |-> [i \in 1..(IF k = 2 THEN n ELSE 1) |-> Ent(i, 6 * i, IF k = 2 THEN << i >> ELSE Ids(2, n), Ids(3, IF k = 2 THEN 2 ELSE n))],
                   s |-> [i \in 1..(IF k = 3 THEN n ELSE 1) |-> Ent(i, 6 * i + 1, IF k = 3 THEN << >> ELSE Ids(4, n), Ids(5, IF k = 3 THEN 1 ELSE n))],
                   v |-> [i \in 1..(IF k = 4 THEN n ELSE 1) |-> Ent(i, 6 * i + 2, IF k = 4 THEN << 1, i >> ELSE Ids(6, n), Ids(7, IF k = 4 THEN 0 ELSE n))]]
LongFam(unused) ==
    UNION { { [EmptySpec EXCEPT !.nodes = LongNodes(n), !.elems = LongElems(n)],
              [EmptySpec EXCEPT !.nodes = NodesOf(<< NodeBlk(2, 1, 0, Ids(0, n), 0) >>, 1, n),
                                !.elems = ElemsOf(<< ElemBlk(0, 1, 15, [i \in 1..n |-> <<i, <<i>> >>]), ElemBlk(0, 2, 15, [i \in 1..n |-> <<n + i, <<n + 1 - i>> >>]) >>, 1, 2 * n)],
              [EmptySpec EXCEPT !.phys = [i \in 1..n |-> [dim |-> i % 4, tag |-> n - i, name |-> i % 7]]],
              [EmptySpec EXCEPT !.nd = << DataSet(Ids(0, n), Ids(0, n), << 0, 1, 1 >> \o Ids(3, n), << Entry(1, 0, << 5 >>) >>) >>],
              [EmptySpec EXCEPT !.ed = << DataSet(<<1>>, <<2>>, << 0, n, 2 >>, << Entry(1, 0, Ids(3, n)), Entry(2, 0, Ids(4, n)) >>) >>],
              [EmptySpec EXCEPT !.end = << DataSet(<<1>>, <<2>>, << 0, 2, 2 >>, << Entry(1, n, Ids(3, 2 * n)), Entry(2, 1, Ids(4, 2)) >>) >>],
              [EmptySpec EXCEPT !.nd = [i \in 1..(n \div 2) |-> DataSet(<<1>>, <<i>>, << i, 1, 1 >>, << Entry(i, 0, <<i>>) >>)],
                                !.ed = [i \in 1..(n \div 2) |-> DataSet(<<i>>, << >>, << 1, 1, i % 2 >>, Ids2(i % 2, i))],
                                !.end = [i \in 1..(n \div 3) |-> DataSet(<< >>, <<i>>, << 1, 1, 1 >>, << Entry(i, 2, <<i, i>>) >>)]] }
            \cup { [EmptySpec EXCEPT !.ents = LongEnts(n, k)] : k \in 0..4 } : n \in LongCounts }
LongSplineFam(unused) ==
    UNION { { [EmptySpec EXCEPT !.curves = [i \in 1..n |-> [tag |-> i, type |-> i % 3, deg |-> i % 4, ncp |-> 1, nk |-> i % 3, w |-> i % 2,
                                                             data |-> Ids(i, (IF i % 2 > 0 THEN 4 ELSE 3) + (i % 3))]]],
              [EmptySpec EXCEPT !.patches = [i \in 1..n |-> [tag |-> i, type |-> i % 3, du |-> i % 4, dv |-> i % 5, ncp |-> 1, nu |-> i % 3, nv |-> i % 2, w |-> i % 2,
                                                              data |-> Ids(i, (IF i % 2 > 0 THEN 4 ELSE 3) + (i % 3) + (i % 2))]]],
              [EmptySpec EXCEPT !.curves = << [tag |-> 1, type |-> 2, deg |-> 3, ncp |-> n, nk |-> n + 4, w |-> 1, data |-> Ids(0, 5 * n + 4)], BaseCurve >>,
                                !.patches = << [tag |-> 1, type |-> 2, du |-> 3, dv |-> 3, ncp |-> n, nu |-> n, nv |-> 2 * n, w |-> 0, data |-> Ids(0, 6 * n)], BasePatch >>] } : n \in LongCounts }

(* Few entries, to be multiplied many times (tools/vlib/codec.py, scale_spec). *)
BigFam(unused) ==
    { [EmptySpec EXCEPT !.nodes = NodesOf(<< NodeBlk(d, 1, p, <<3, 1, 4>>, 0), NodeBlk(1, 2, 0, <<6>>, 30) >>, 1, 6),
                        !.elems = ElemsOf(<< ElemBlk(2, 1, 2, << <<2, <<3, 1, 4>> >>, <<1, <<4, 6, 3>> >>, <<7, <<1, 3, 4>> >> >>) >>, 1, 8)]
      : d \in {2}, p \in 0..1 }
    \cup { [EmptySpec EXCEPT !.nd = << DataSet(<<1>>, <<2>>, << 0, 1, 3 >>, << Entry(4, 0, <<1>>), Entry(2, 0, <<2>>), Entry(3, 0, <<3>>) >>) >>,
                             !.ed = << DataSet(<<1>>, <<2>>, << 0, 1, 3 >>, << Entry(5, 0, <<1>>), Entry(2, 0, <<2>>), Entry(3, 0, <<3>>) >>) >>,
                             !.end = << DataSet(<<1>>, <<2>>, << 0, 1, 3 >>, << Entry(6, 2, <<1, 5>>), Entry(2, 1, <<2>>), Entry(3, 0, <<>>) >>) >>] }

(* One list of one entry, to be grown very long (codec.grow_spec). *)
LoneEnt(p, b) == Ent(1, 6, p, b)
LoneLists(unused) ==
    { [EmptySpec EXCEPT !.ents = [EmptyEnts EXCEPT !.p = << Point(1, 3, <<5>>) >>]] }
    \cup UNION { { [EmptySpec EXCEPT !.ents = [EmptyEnts EXCEPT !.c = <<e>>]], [EmptySpec EXCEPT !.ents = [EmptyEnts EXCEPT !.s = <<e>>]],
                    [EmptySpec EXCEPT !.ents = [EmptyEnts EXCEPT !.v = <<e>>]] } : e \in { LoneEnt(<<5>>, <<>>), LoneEnt(<<>>, <<5>>) } }
    \cup { [EmptySpec EXCEPT !.nd = <<d>>] : d \in { DataSet(<<3>>, <<>>, << 0, 0, 0 >>, <<>>), DataSet(<<>>, <<3>>, << 0, 0, 0 >>, <<>>), DataSet(<<>>, <<>>, << 0, 0, 0, 7 >>, <<>>) } }
    \cup { [EmptySpec EXCEPT !.ed = << DataSet(<<>>, <<>>, << 0, 1, 1 >>, << Entry(4, 0, <<5>>) >>) >>],
           [EmptySpec EXCEPT !.end = << DataSet(<<>>, <<>>, << 0, 1, 1 >>, << Entry(4, 1, <<5>>) >>) >>] }
LoneRecords(unused) ==
    { [EmptySpec EXCEPT !.phys = << BasePhys[2] >>], [EmptySpec EXCEPT !.ents = [EmptyEnts EXCEPT !.p = << Point(1, 3, <<>>) >>]],
      [EmptySpec EXCEPT !.nodes = NodesOf(<< NodeBlk(1, 1, 0, <<1>>, 0) >>, 1, 1)],
      [EmptySpec EXCEPT !.elems = ElemsOf(<< ElemBlk(0, 1, 15, << <<1, <<1>> >> >>) >>, 1, 1)],
      [EmptySpec EXCEPT !.nd = << DataSet(<<>>, <<>>, << 0, 0, 0 >>, <<>>) >>], [EmptySpec EXCEPT !.ed = << DataSet(<<>>, <<>>, << 0, 0, 0 >>, <<>>) >>],
      [EmptySpec EXCEPT !.end = << DataSet(<<>>, <<>>, << 0, 0, 0 >>, <<>>) >>] }
    \cup UNION { { [EmptySpec EXCEPT !.ents = [EmptyEnts EXCEPT !.c = <<e>>]], [EmptySpec EXCEPT !.ents = [EmptyEnts EXCEPT !.s = <<e>>]],
                    [EmptySpec EXCEPT !.ents = [EmptyEnts EXCEPT !.v = <<e>>]] } : e \in { LoneEnt(<<>>, <<>>) } }
LoneSpline(unused) ==
    { [EmptySpec EXCEPT !.curves = << [tag |-> 1, type |-> 2, deg |-> 3, ncp |-> 1, nk |-> 1, w |-> w, data |-> Ids(1, 4 + w)] >>] : w \in 0..1 }
    \cup { [EmptySpec EXCEPT !.patches = << [tag |-> 1, type |-> 2, du |-> 3, dv |-> 2, ncp |-> 1, nu |-> 1, nv |-> 1, w |-> w, data |-> Ids(1, 5 + w)] >>] : w \in 0..1 }

(* Splines. *)
CurveRecs(unused) == { [tag |-> t, type |-> 2, deg |-> 3, ncp |-> a, nk |-> k, w |-> w, data |-> Ids(10 * t, a * (IF w > 0 THEN 4 ELSE 3) + k)]
               : t \in {1, 2}, a \in 0..2, k \in 0..2, w \in 0..2 }
PatchRecs(unused) == { [tag |-> t, type |-> 1, du |-> 2, dv |-> 3, ncp |-> a, nu |-> k, nv |-> l, w |-> w,
                data |-> Ids(20 * t, a * (IF w > 0 THEN 4 ELSE 3) + k + l)]
               : t \in {5, 3}, a \in {0, 2}, k \in 0..2, l \in 0..2, w \in 0..1 }
SplineFam(unused) ==
    { [EmptySpec EXCEPT !.nsf = "1.2", !.curves = <<c>>] : c \in CurveRecs(0) }
    \cup { [EmptySpec EXCEPT !.patches = <<q>>] : q \in PatchRecs(0) }
    \cup { [BaseExt EXCEPT !.nsf = v, !.curves = SubSeq(<<c, BaseCurve, c>>, 1, m), !.patches = SubSeq(<<BasePatch, q, BasePatch>>, 1, k)]
           : v \in {"1.0", "2.5-beta"}, c \in { x \in CurveRecs(0) : x.tag = 2 /\ x.ncp = 2 /\ x.w # 2 }, q \in { x \in PatchRecs(0) : x.tag = 3 /\ x.ncp = 2 /\ x.nu # 1 },
             m \in 0..3, k \in {0, 1, 3} }
    \cup { [EmptySpec EXCEPT !.curves = << [tag |-> n, type |-> n, deg |-> n, ncp |-> n, nk |-> m, w |-> w, data |-> Ids(0, n * (IF w > 0 THEN 4 ELSE 3) + m)] >>,
                             !.patches = << [tag |-> n, type |-> n, du |-> n, dv |-> n, ncp |-> m, nu |-> n, nv |-> m, w |-> w, data |-> Ids(0, m * (IF w > 0 THEN 4 ELSE 3) + n + m)] >>]
           : n \in {9, 10, 13, 32}, m \in {1, 10}, w \in 0..1 }

(* Small meshes whose elements share nodes: 2.2 regrouping. *)
RegroupEls == { <<15, e, <<a>> >> : e \in {1, 2}, a \in 1..3 } \cup { <<1, e, <<a, b>> >> : e \in {1, 2}, a \in {1, 2}, b \in {2, 3} }
RegroupSeqs(unused) == UNION { [1..k -> RegroupEls] : k \in 1..(IF Thorough THEN 3 ELSE 2) }
RegroupSpec(q, order) ==
    [EmptySpec EXCEPT
       !.nodes = NodesOf(<< NodeBlk(0, 1, 0, order, 0) >>, 1, 3),
       !.elems = ElemsOf([i \in 1..Len(q) |-> ElemBlk(ElementDim[q[i][1]], q[i][2], q[i][1], << << 4 - i, q[i][3] >> >>)], 1, 4)]
RegroupFam(unused) == { RegroupSpec(q, o) : q \in RegroupSeqs(0), o \in (IF Thorough THEN { <<1, 2, 3>> , <<3, 1, 2>> } ELSE {<<1, 3, 2>>}) }

(* Descriptions for conversion chains. *)
ChainFam(unused) ==
    { BaseExt, SmallExt, EmptySpec,
      [Base EXCEPT !.nodes = NodesOf(<< NodeBlk(0, 3, 0, <<6>>, 0), NodeBlk(0, 4, 0, <<2, 4, 1>>, 10), NodeBlk(3, 5, 0, <<3, 5>>, 40) >>, 0, 20)],
      [EmptySpec EXCEPT !.nodes = Pool, !.elems = ElemsOf(<<ElemBlk(3, 3, 4, << <<9, <<2, 3, 5, 7>> >> >>), ElemBlk(3, 3, 4, << <<4, <<3, 5, 7, 8>> >> >>), ElemBlk(2, 3, 2, << <<5, <<9, 8, 7>> >> >>)>>, 1, 30)],
      [Base EXCEPT !.nodes = EmptyNodes], [Base EXCEPT !.elems = EmptyElems] }

(* Descriptions that must be refused: unsupported element types. *)
Insert1(q, g, x) == SubSeq(q, 1, g) \o << x >> \o SubSeq(q, g + 1, Len(q))
BadTypeFam(unused) ==
    { [EmptySpec EXCEPT !.nodes = BaseNodes,
                        !.elems = ElemsOf(<< [dim |-> 2, etag |-> 1, type |-> t, n |-> 1, data |-> <<1, 2, 3, 4>>] >>, 1, 6)]
      : t \in {-15, -1, 0, 32, 33, 92, 93, 1000} }
    \cup { [EmptySpec EXCEPT !.nodes = BaseNodes,
                        !.elems = ElemsOf(<< ElemBlk(2, 1, 2, << <<1, <<1, 2, 3>> >> >>), [dim |-> 2, etag |-> 1, type |-> t, n |-> 1, data |-> <<1, 2, 3, 4>>] >>, 1, 6)]
      : t \in {0, 32} }
    \cup   \* a block without elements, in every place
    { [EmptySpec EXCEPT !.nodes = BaseNodes,
                        !.elems = ElemsOf(Insert1(<< ElemBlk(2, 1, 2, << <<1, <<1, 2, 3>> >> >>), ElemBlk(0, 1, 15, << <<2, <<1>> >> >>) >>, g,
                                                  [dim |-> 2, etag |-> 1, type |-> t, n |-> 0, data |-> <<>>]), 1, 6)]
      : t \in {-15, 0, 32, 40, 1000}, g \in 0..2 }

(* One tag that does not fit 32 bits (ordinal 100), or just does (99), at every
   place a tag can stand. *)
WideFam(unused) ==
    LET D == [Base EXCEPT !.nodes.mx = 100, !.elems.mx = 100] IN
    UNION { { [D EXCEPT !.nodes.blocks[b].tags[i] = w] : i \in 1..2, b \in 2..3 }
            \cup { [D EXCEPT !.nodes.blocks[1].tags[1] = w] }
            \cup { [D EXCEPT !.elems.blocks[2].data[i] = w] : i \in 1..6 }
            \cup { [D EXCEPT !.elems.blocks[3].data[i] = w] : i \in 1..8 }
            \cup { [D EXCEPT !.elems.blocks[1].data[i] = w] : i \in 1..2 }
            \cup { [D EXCEPT !.nd[1].entries[i].tag = w] : i \in 1..2 }
            \cup { [D EXCEPT !.ed[1].entries[1].tag = w] }
            \cup { [D EXCEPT !.end[1].entries[i].tag = w] : i \in 1..2 }
            \cup { [D EXCEPT !.nodes.mx = w, !.elems.mx = w] } : w \in {99, 100} }
    \cup { D, [D EXCEPT !.elems = EmptyElems, !.nodes.blocks[3].tags[3] = 100] }
WideOrd == {100}
NoWide == {}

(* Strings in every place a string can stand. *)
StringFam(unused) ==
    { [Base EXCEPT !.phys = [i \in 1..n |-> [dim |-> i % 4, tag |-> i, name |-> i]],
                   !.nd = << [BaseND EXCEPT !.st = Ids(n, k)] >>, !.ed = << [BaseED EXCEPT !.st = Ids(n + k, k)] >>,
                   !.end = << [BaseEND EXCEPT !.st = Ids(n + 2 * k, k)] >>] : n \in 0..4, k \in 0..3 }

(* Descriptions that differ from a consistent one in one place. *)
PerturbOf(D) ==
    LET NB == 1..Len(D.nodes.blocks)
        EB == 1..Len(D.elems.blocks)
        Around(x) == { y \in {0, x - 1, x + 1, x + 7} : y >= 0 }
    IN
    {D}
    \cup { [D EXCEPT !.nodes.nb = y] : y \in Around(D.nodes.nb) }
    \cup { [D EXCEPT !.nodes.nn = y] : y \in Around(D.nodes.nn) }
    \cup { [D EXCEPT !.nodes.mn = y] : y \in 0..(D.nodes.mx + 2) }
    \cup { [D EXCEPT !.nodes.mx = y] : y \in 0..(D.nodes.mx + 2) }
    \cup { [D EXCEPT !.elems.nb = y] : y \in Around(D.elems.nb) }
    \cup { [D EXCEPT !.elems.ne = y] : y \in Around(D.elems.ne) }
    \cup { [D EXCEPT !.elems.mn = y] : y \in 0..(D.elems.mx + 2) }
    \cup { [D EXCEPT !.elems.mx = y] : y \in 0..(D.elems.mx + 2) }
    \cup UNION { LET B == D.nodes.blocks[b] IN
              { [D EXCEPT !.nodes.blocks[b].n = y] : y \in Around(B.n) }
         \cup { [D EXCEPT !.nodes.blocks[b].n = y, !.nodes.nn = @ - B.n + y] : y \in Around(B.n) }
         \cup { [D EXCEPT !.nodes.blocks[b].n = y, !.nodes.nn = @ - B.n + y, !.nodes.blocks[b].data = Ids(0, y * Stride(B))] : y \in Around(B.n) }
         \cup { [D EXCEPT !.nodes.blocks[b].par = y] : y \in 0..1 }
         \cup { [D EXCEPT !.nodes.blocks[b].dim = y, !.nodes.blocks[b].par = p] : y \in 0..3, p \in 0..1 }
         \cup { [D EXCEPT !.nodes.blocks[b].dim = y, !.nodes.blocks[b].par = 1, !.nodes.blocks[b].data = Ids(0, B.n * (3 + y))] : y \in -3..4 }
         \cup { [D EXCEPT !.nodes.blocks[b].dim = y, !.nodes.blocks[b].par = 0, !.nodes.blocks[b].data = Ids(0, B.n * 3)] : y \in {-1, 4} }
         \cup { [D EXCEPT !.nodes.blocks[b].tags = Append(@, D.nodes.mn)] }
         \cup { [D EXCEPT !.nodes.blocks[b].tags = SubSeq(@, 1, Len(@) - 1)] }
         \cup { [D EXCEPT !.nodes.blocks[b].data = SubSeq(@ \o Ids(50, 9), 1, Len(@) + y)] : y \in {-3, -1, 1, 3} }
         \cup { [D EXCEPT !.nodes.blocks[b].tags[i] = y] : i \in 1..Len(B.tags), y \in 0..(D.nodes.mx + 2) }
        : b \in NB }
    \cup UNION { LET B == D.elems.blocks[b] IN
              { [D EXCEPT !.elems.blocks[b].n = y] : y \in Around(B.n) }
         \cup { [D EXCEPT !.elems.blocks[b].n = y, !.elems.ne = @ - B.n + y] : y \in Around(B.n) }
         \cup { [D EXCEPT !.elems.blocks[b].type = y] : y \in {-1, 0, 1, 2, 3, 4, 15, 31, 32, 100} }
         \cup { [D EXCEPT !.elems.blocks[b].dim = y] : y \in 0..3 }
         \cup { [D EXCEPT !.elems.blocks[b].data = SubSeq(@ \o [i \in 1..9 |-> D.nodes.mn], 1, Len(@) + y)]
                 : y \in { x \in {-1 - ElementSize[B.type], -1, 1, 1 + ElementSize[B.type]} : Len(B.data) + x >= 0 } }
         \cup { [D EXCEPT !.elems.blocks[b].data[i] = y] : i \in 1..Len(B.data), y \in 0..(1 + Max({D.nodes.mx, D.elems.mx})) }
        : b \in EB }
    \cup UNION { { [D EXCEPT !.nodes.blocks[b].n = D.nodes.blocks[b].n + 1, !.nodes.blocks[a].n = D.nodes.blocks[a].n - 1] : b \in NB \ {a} } : a \in NB }
    \cup UNION { { [D EXCEPT !.elems.blocks[b].n = D.elems.blocks[b].n + 1, !.elems.blocks[a].n = D.elems.blocks[a].n - 1] : b \in EB \ {a} } : a \in EB }
    \cup { [D EXCEPT !.nodes.blocks = SubSeq(@, 1, Len(@) - 1)], [D EXCEPT !.elems.blocks = SubSeq(@, 1, Len(@) - 1)] }
    \cup { [D EXCEPT !.nodes.blocks = Append(@, NodeBlk(0, 9, 0, <<>>, 0))], [D EXCEPT !.nodes.blocks = Append(@, NodeBlk(0, 9, 0, <<>>, 0)), !.nodes.nb = @ + 1],
            [D EXCEPT !.elems.blocks = Append(@, ElemBlk(0, 9, 15, <<>>))], [D EXCEPT !.elems.blocks = Append(@, ElemBlk(0, 9, 15, <<>>)), !.elems.nb = @ + 1],
            [D EXCEPT !.nodes = EmptyNodes], [D EXCEPT !.elems = EmptyElems] }

PerturbA == [EmptySpec EXCEPT
    !.nodes = NodesOf(<< NodeBlk(2, 1, 1, <<3, 5>>, 0), NodeBlk(1, 2, 0, <<4>>, 20) >>, 3, 5),
    !.elems = ElemsOf(<< ElemBlk(2, 1, 2, << <<2, <<3, 4, 5>> >> >>), ElemBlk(0, 1, 15, << <<3, <<5>> >>, <<4, <<3>> >> >>) >>, 2, 4)]
PerturbB == [EmptySpec EXCEPT
    !.nodes = NodesOf(<< NodeBlk(0, 1, 0, <<2, 2, 6>>, 0), NodeBlk(3, 2, 1, <<4>>, 20), NodeBlk(0, 2, 1, <<5>>, 40) >>, 1, 7),
    !.elems = ElemsOf(<< ElemBlk(1, 1, 1, << <<7, <<2, 6>> >>, <<1, <<6, 2>> >> >>), ElemBlk(3, 1, 4, << <<3, <<2, 4, 5, 6>> >> >>) >>, 1, 8)]
PerturbC == [Base EXCEPT !.nodes = [BaseNodes EXCEPT !.mn = 0]]
PerturbFam(unused) == PerturbOf(PerturbA) \cup PerturbOf(PerturbB) \cup PerturbOf(EmptySpec) \cup (IF Thorough THEN PerturbOf(PerturbC) \cup PerturbOf(Small) ELSE {})

(* References to nodes that are not there. *)
DanglingFam(unused) ==
    { [EmptySpec EXCEPT !.nodes = IF k = 3 THEN EmptyNodes ELSE NodesOf(<< NodeBlk(0, 1, 0, <<2, 4>>, 0) >>, 2, 4),
                        !.elems = ElemsOf(<< ElemBlk(1, 1, 1, << <<1, <<a, b>> >> >>), ElemBlk(0, 1, 15, << <<2, <<c>> >> >>) >>, 1, 2)]
      : k \in {2, 3}, a \in 0..5, b \in 0..5, c \in {0, 2, 3, 5, 50} }

=============================================================================
