------------------------------ MODULE MshBase ------------------------------
(***************************************************************************)
(* Vocabulary of the MshIO specification: the mesh description (what the   *)
(* library calls MshSpec), the element table, and the token alphabet of    *)
(* MSH files.                                                              *)
(*                                                                         *)
(* Abstraction.  The library only copies and compares tags, and only       *)
(* copies floating-point numbers and strings.  The model therefore uses    *)
(* small integers for them:                                                *)
(*   size_t tags, free ints : ordinals, concretised by monotone maps       *)
(*   doubles, strings       : identifiers, concretised by injective tables *)
(* Counts, dimensions, element types and the parametric flag are literal.  *)
(*                                                                         *)
(* A token is <<enc, kind, value>>:                                        *)
(*   enc   0 = text, 4 / 8 = raw little-endian field of that many bytes    *)
(*   kind  "kw" section marker   "w"  bare word (version)                  *)
(*         "n"  count/literal    "i"  int32 literal                        *)
(*         "t"  tag ordinal      "e"  free int ordinal                     *)
(*         "d"  double id        "r"  double id that is always text        *)
(*         "s"  quoted string id "m"  the integer 1 (byte-order mark)      *)
(*         "x"  a word that is not a number                                *)
(*         "nl" the single separator byte before a raw body                *)
(*         "raw" uninterpreted bytes (bodies of unknown sections)          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

----------------------------------------------------------------------------
(* Element types: README, "Supported element types". *)
ElementSize == << 2, 3, 4, 4, 8, 6, 5, 3, 6, 9, 10, 27, 18, 14, 1, 8, 20, 15,
                  13, 9, 10, 12, 15, 15, 21, 4, 5, 6, 20, 35, 56 >>
ElementDim  == << 1, 2, 2, 3, 3, 3, 3, 1, 2, 2, 3, 3, 3, 3, 0, 2, 3, 3,
                  3, 2, 2, 2, 2, 2, 2, 1, 1, 1, 3, 3, 3 >>
ElementTypes == 1..31
IsElementType(t) == t \in ElementTypes

----------------------------------------------------------------------------
(* The mesh description. *)
EmptyNodes == [nb |-> 0, nn |-> 0, mn |-> 0, mx |-> 0, blocks |-> <<>>]
EmptyElems == [nb |-> 0, ne |-> 0, mn |-> 0, mx |-> 0, blocks |-> <<>>]
EmptyEnts  == [p |-> <<>>, c |-> <<>>, s |-> <<>>, v |-> <<>>]

DefaultFmt == [ver |-> "4.1", bin |-> 0, dsz |-> 8]

EmptySpec == [ fmt |-> DefaultFmt, nodes |-> EmptyNodes, elems |-> EmptyElems,
               ents |-> EmptyEnts, phys |-> <<>>,
               nd |-> <<>>, ed |-> <<>>, end |-> <<>>,
               nsf |-> "1.0", curves |-> <<>>, patches |-> <<>> ]

Mode(ver, bin) == [ver |-> ver, bin |-> bin, dsz |-> 8]
Modes == { Mode(v, b) : v \in {"4.1", "2.2"}, b \in {0, 1} }

SumSeq(q) == FoldLeft(LAMBDA x, y : x + y, 0, q)
SeqMin(q) == Min(ToSet(q))
SeqMax(q) == Max(ToSet(q))

(* Values per node: x, y, z and, on a parametric block, entity_dim more. *)
Stride(b) == 3 + (IF b.par = 1 THEN b.dim ELSE 0)

(***************************************************************************)
(* Consistency of a description, as validate_spec decides it.              *)
(***************************************************************************)
NodesConsistent(N) ==
    /\ N.nb = Len(N.blocks)
    /\ N.mn <= N.mx
    /\ N.nn = SumSeq([i \in 1..Len(N.blocks) |-> N.blocks[i].n])
    /\ \A i \in 1..Len(N.blocks) :
         LET b == N.blocks[i] IN
           /\ Len(b.tags) = b.n
           /\ b.par = 1 => b.dim >= 0
           /\ Len(b.data) = b.n * Stride(b)
           /\ \A j \in 1..Len(b.tags) : N.mn <= b.tags[j] /\ b.tags[j] <= N.mx

ElemsConsistent(N, E) ==
    /\ E.nb = Len(E.blocks)
    /\ E.mn <= E.mx
    /\ E.ne = SumSeq([i \in 1..Len(E.blocks) |-> E.blocks[i].n])
    /\ \A i \in 1..Len(E.blocks) :
         LET b == E.blocks[i]
             w == ElementSize[b.type] + 1
         IN /\ IsElementType(b.type)
            /\ Len(b.data) = b.n * w
            /\ \A j \in 1..Len(b.data) :
                 IF (j - 1) % w = 0
                 THEN E.mn <= b.data[j] /\ b.data[j] <= E.mx
                 ELSE N.mn <= b.data[j] /\ b.data[j] <= N.mx

IsValid(s) == NodesConsistent(s.nodes) /\ ElemsConsistent(s.nodes, s.elems)

(***************************************************************************)
(* validate_spec as it is built deviates from IsValid in known ways (see   *)
(* known-findings.txt).  Deviations names the ones a description runs      *)
(* into, AsBuilt the verdict to be expected then.                          *)
(***************************************************************************)
SumN(B) == SumSeq([i \in 1..Len(B) |-> B[i].n])
HeadersAgree(N, E) == N.nb = Len(N.blocks) /\ E.nb = Len(E.blocks) /\ N.mn <= N.mx /\ E.mn <= E.mx
NodesAsBuilt(N) ==
    \A i \in 1..Len(N.blocks) :
        LET b == N.blocks[i] IN
          /\ Len(b.tags) = b.n
          /\ Len(b.data) = b.n * Stride(b)
          /\ \A j \in 1..Len(b.tags) : N.mn <= b.tags[j] /\ b.tags[j] <= N.mx
(* A block that divides by zero. *)
Divides(b) == b.n = 0 \/ Len(b.data) < b.n
BlockAsBuilt(N, E, b) ==
    LET w == Len(b.data) \div b.n
    IN /\ Len(b.data) % w = 0
       /\ \A j \in 1..Len(b.data) :
            IF (j - 1) % w = 0 THEN E.mn <= b.data[j] /\ b.data[j] <= E.mx
            ELSE N.mn <= b.data[j] /\ b.data[j] <= N.mx
AsBuilt(s) ==
    LET N == s.nodes
        E == s.elems
        bad == { i \in 1..Len(E.blocks) : IF Divides(E.blocks[i]) THEN TRUE ELSE ~BlockAsBuilt(N, E, E.blocks[i]) }
    IN IF ~HeadersAgree(N, E) \/ ~NodesAsBuilt(N) THEN "CorruptData"
       ELSE IF bad = {} THEN "valid"
       ELSE IF Divides(E.blocks[Min(bad)]) THEN "crash" ELSE "CorruptData"

Deviations(s) ==
    (IF s.nodes.nn # SumN(s.nodes.blocks) THEN {"V1"} ELSE {})
    \cup (IF s.elems.ne # SumN(s.elems.blocks) THEN {"V2"} ELSE {})
    \cup (IF \E i \in 1..Len(s.elems.blocks) : s.elems.blocks[i].n = 0 THEN {"V3"} ELSE {})
    \cup (IF \E i \in 1..Len(s.elems.blocks) : LET b == s.elems.blocks[i] IN b.n > 0 /\ Len(b.data) < b.n THEN {"V4"} ELSE {})
    \cup (IF \E i \in 1..Len(s.elems.blocks) : LET b == s.elems.blocks[i] IN
               Len(b.data) >= b.n /\ b.n > 0 /\ (IF IsElementType(b.type) THEN Len(b.data) # b.n * (ElementSize[b.type] + 1) ELSE TRUE)
           THEN {"V5"} ELSE {})
    \cup (IF \E i \in 1..Len(s.nodes.blocks) : s.nodes.blocks[i].par = 1 /\ s.nodes.blocks[i].dim < 0 THEN {"V6"} ELSE {})

(* What validate_spec does not look at but saving needs (README). *)
DataConsistent(D, perNode) ==
    /\ Len(D.it) >= 3
    /\ D.it[3] = Len(D.entries)
    /\ \A i \in 1..Len(D.entries) :
         Len(D.entries[i].data) = D.it[2] * (IF perNode THEN D.entries[i].npe ELSE 1)

CurveLen(c) == c.ncp * (IF c.w > 0 THEN 4 ELSE 3) + c.nk
PatchLen(q) == q.ncp * (IF q.w > 0 THEN 4 ELSE 3) + q.nu + q.nv

IsConsistent(s) ==
    /\ s.fmt \in Modes
    /\ IsValid(s)
    /\ \A i \in 1..Len(s.nd)  : DataConsistent(s.nd[i], FALSE)
    /\ \A i \in 1..Len(s.ed)  : DataConsistent(s.ed[i], FALSE)
    /\ \A i \in 1..Len(s.end) : DataConsistent(s.end[i], TRUE)
    /\ \A i \in 1..Len(s.curves)  : Len(s.curves[i].data)  = CurveLen(s.curves[i])
    /\ \A i \in 1..Len(s.patches) : Len(s.patches[i].data) = PatchLen(s.patches[i])

----------------------------------------------------------------------------
(* Views of a description that do not depend on how it is cut into blocks. *)

(* Every node in order: <<tag, x, y, z>>. *)
NodeList(s) ==
    FlattenSeq([i \in 1..Len(s.nodes.blocks) |->
        LET b == s.nodes.blocks[i]
            k == Stride(b)
        IN [j \in 1..b.n |->
              << b.tags[j], b.data[(j-1)*k + 1], b.data[(j-1)*k + 2], b.data[(j-1)*k + 3] >>]])

(* Every element in order: <<tag, type, entity tag, nodes>>. *)
ElemList(s) ==
    FlattenSeq([i \in 1..Len(s.elems.blocks) |->
        LET b == s.elems.blocks[i]
            w == ElementSize[b.type] + 1
        IN [j \in 1..b.n |->
              << b.data[(j-1)*w + 1], b.type, b.etag,
                 SubSeq(b.data, (j-1)*w + 2, j*w) >>]])

----------------------------------------------------------------------------
(* Tokens. *)
KW(name) == <<0, "kw", name>>
NL       == <<0, "nl", 0>>
Tok(enc, kind, v) == <<enc, kind, v>>
Toks(enc, kind, q) == [i \in 1..Len(q) |-> <<enc, kind, q[i]>>]

IsKW(t)  == t[2] = "kw"
(* Text that parses as a number. *)
IsTextNum(t) == t[1] = 0 /\ t[2] \in {"n", "i", "t", "e", "d", "r"}
=============================================================================
