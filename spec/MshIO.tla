------------------------------- MODULE MshIO -------------------------------
(***************************************************************************)
(* The behaviour of the library as a state machine.  Each client runs its  *)
(* own session: it saves a description section by section, the file may be *)
(* damaged, and it is loaded back section by section; the result can be    *)
(* saved again in another mode.  Clients interleave freely and share       *)
(* nothing, which is what the library promises.                            *)
(***************************************************************************)
EXTENDS MshReader, MshWriter

CONSTANTS
    Clients,      \* set of client ids
    Starts,       \* set of sessions a client may start with
    SaveModes,    \* modes a client may save in
    MaxSaves,     \* number of saves per session
    FaultKinds,   \* kinds of damage that may happen, once per session
    WideTags,     \* tag ordinals that do not fit a 32-bit field
    WithValidate  \* whether clients call validate_spec

VARIABLE sess       \* client -> session

vars == << sess >>

(***************************************************************************)
(* A session:                                                              *)
(*   phase  "idle"  a description is at hand    "writing" save in progress *)
(*          "file"  a complete file is at hand  "reading" load in progress *)
(*          "failed" a call threw                                          *)
(*   own    TRUE if the file was written by the library                    *)
(*   ext    NanoSpline extension compiled in                               *)
(*   orig   the description the session started with                       *)
(*   cur    the description at hand     trail  modes saved in so far       *)
(*   file   tokens of the file          pos, acc  progress of the load     *)
(*   fault  the damage done             out    result of the last call     *)
(***************************************************************************)
(* <<kind, position, argument, kind of the token hit, by how much a number grew>> *)
NoFault == << "none", 0, 0, "", 0 >>

SaveStart(d, ext) ==
    [ phase |-> "idle", own |-> TRUE, ext |-> ext, orig |-> d, cur |-> d, trail |-> <<>>,
      pend |-> <<>>, file |-> <<>>, pos |-> 0, acc |-> EmptySpec,
      fault |-> NoFault, out |-> "ok", label |-> "" ]

FileStart(ts, ext, label) ==
    [ phase |-> "file", own |-> FALSE, ext |-> ext, orig |-> EmptySpec, cur |-> EmptySpec, trail |-> <<>>,
      pend |-> <<>>, file |-> ts, pos |-> 0, acc |-> EmptySpec,
      fault |-> NoFault, out |-> "ok", label |-> label ]

Init == sess \in [Clients -> Starts]

Set(c, s) == sess' = [sess EXCEPT ![c] = s]

----------------------------------------------------------------------------
(* Saving. *)
BeginSave(c, m) ==
    LET s == sess[c]
        d == [s.cur EXCEPT !.fmt = m]
    IN /\ s.phase = "idle"
       /\ Len(s.trail) < MaxSaves
       /\ IF SaveRefused(d, WideTags)
          THEN Set(c, [s EXCEPT !.phase = "failed", !.out = "UnsupportedFeature", !.cur = d, !.trail = Append(@, m)])
          ELSE Set(c, [s EXCEPT !.phase = "writing", !.pend = WriterSections, !.file = <<>>, !.out = "ok",
                                !.cur = d, !.trail = Append(@, m)])

(* Sections without content are passed over. *)
WriteSection(c) ==
    LET s == sess[c]
        i == SelectInSeq(s.pend, LAMBDA sec : SectionTokens(sec, s.cur, s.ext) # <<>>)
    IN /\ s.phase = "writing" /\ i > 0
       /\ Set(c, [s EXCEPT !.pend = SubSeq(@, i + 1, Len(@)),
                           !.file = @ \o SectionTokens(s.pend[i], s.cur, s.ext)])

EndSave(c) ==
    LET s == sess[c] IN
    /\ s.phase = "writing"
    /\ \A i \in 1..Len(s.pend) : SectionTokens(s.pend[i], s.cur, s.ext) = <<>>
    /\ Set(c, [s EXCEPT !.phase = "file", !.pend = <<>>])

(***************************************************************************)
(* The device fails.  The file holds what had been written; the call must  *)
(* not end as if all were well.                                            *)
(***************************************************************************)
WriteFails(c) ==
    LET s == sess[c] IN
    /\ "wfail" \in FaultKinds /\ s.phase = "writing"
    /\ Set(c, [s EXCEPT !.phase = "failed", !.out = "io", !.fault = << "wfail", Len(s.file), 0, "", 0 >>])

ReadFails(c) ==
    LET s == sess[c] IN
    /\ "rfail" \in FaultKinds /\ s.phase = "reading"
    /\ Set(c, [s EXCEPT !.phase = "failed", !.out = "io", !.fault = << "rfail", s.pos, 0, "", 0 >>])

DeviceFaults == {"wfail", "rfail"}

----------------------------------------------------------------------------
(* Validation reports and changes nothing. *)
Validate(c) ==
    LET s == sess[c] IN
    /\ WithValidate
    /\ s.phase = "idle" /\ s.out = "ok"
    /\ Set(c, [s EXCEPT !.out = IF IsValid(s.cur) THEN "valid" ELSE "CorruptData"])

----------------------------------------------------------------------------
(* Damage, at token granularity (the conformance harness refines a cut to
   every byte). *)
Damaged(ts, f) ==
    LET k == f[2] IN
    CASE f[1] = "cut"  -> SubSeq(ts, 1, k - 1)                                  \* ends before token k
      [] f[1] = "part" -> SubSeq(ts, 1, k - 1) \o                                \* ends within token k
                          (IF IsKW(ts[k]) THEN << KW("$") >>
                           ELSE IF ts[k][1] = 0 /\ ts[k][2] # "nl" THEN << Tok(0, "x", 0) >> ELSE <<>>)
      [] f[1] = "drop" -> SubSeq(ts, 1, k - 1) \o SubSeq(ts, k + 1, Len(ts))
      [] f[1] = "word" -> [ts EXCEPT ![k] = Tok(0, "x", 0)]
      [] f[1] = "num"  -> [ts EXCEPT ![k] = Tok(0, "i", f[3])]
      [] f[1] = "dup"  -> SubSeq(ts, 1, k) \o SubSeq(ts, k, Len(ts))

(* Numbers that replace a token: around the value it had. *)
NumArgs(t) == IF IsTextNum(t) /\ t[2] # "d" THEN { t[3] - 1, t[3] + 1 } \ {-1} ELSE {}

Damage(c) ==
    LET s == sess[c] IN
    /\ s.phase = "file" /\ s.fault[1] = "none"
    /\ FaultKinds \ DeviceFaults # {}
    /\ \E k \in 1..Len(s.file), kind \in FaultKinds \ DeviceFaults :
         \E a \in (IF kind = "num" THEN NumArgs(s.file[k]) ELSE {0}) :
           LET f == << kind, k, a, s.file[k][2], IF kind = "num" THEN a - s.file[k][3] ELSE 0 >> IN
           Set(c, [s EXCEPT !.fault = f, !.file = Damaged(s.file, f)])

----------------------------------------------------------------------------
(* Loading. *)
BeginLoad(c) ==
    LET s == sess[c] IN
    /\ s.phase = "file"
    /\ Set(c, [s EXCEPT !.phase = "reading", !.pos = 1, !.acc = EmptySpec])

(* Anything that is not a section marker is ignored between sections. *)
SkipStray(c) ==
    LET s == sess[c] IN
    /\ s.phase = "reading" /\ s.pos <= Len(s.file) /\ ~IsKW(s.file[s.pos])
    /\ Set(c, [s EXCEPT !.pos = @ + 1])

LoadSection(c) ==
    LET s == sess[c] IN
    /\ s.phase = "reading" /\ s.pos <= Len(s.file) /\ IsKW(s.file[s.pos])
    /\ LET r == ReadSection(s.file, s.pos, s.acc, s.ext)
       IN IF r.p < 0
          THEN Set(c, [s EXCEPT !.phase = "failed", !.out = Outcome(r.p)])
          ELSE Set(c, [s EXCEPT !.pos = r.p, !.acc = r.v])

EndLoad(c) ==
    LET s == sess[c] IN
    /\ s.phase = "reading" /\ s.pos > Len(s.file)
    /\ Set(c, [s EXCEPT !.phase = "idle", !.cur = PostProcess(s.acc), !.out = "ok", !.acc = EmptySpec])

Next == \E c \in Clients :
          \/ \E m \in SaveModes : BeginSave(c, m)
          \/ WriteSection(c) \/ EndSave(c) \/ WriteFails(c)
          \/ Validate(c)
          \/ Damage(c)
          \/ BeginLoad(c) \/ SkipStray(c) \/ LoadSection(c) \/ EndLoad(c) \/ ReadFails(c)

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
(* Properties of the design. *)

(* The session has just loaded a file. *)
Loaded(s) == s.phase = "idle" /\ (s.trail # <<>> \/ ~s.own)
LoadedOwn(s) == Loaded(s) /\ s.own /\ s.fault[1] = "none"

(* What saving in mode m and loading gives, by definition. *)
NormData(Ds) == [i \in 1..Len(Ds) |-> [Ds[i] EXCEPT !.entries = [j \in 1..Len(@) |-> [@[j] EXCEPT !.npe = 0]]]]
Norm41(d, m, ext) ==
    [ d EXCEPT !.fmt = m,
               !.nodes = IF d.nodes.nn = 0 THEN EmptyNodes ELSE @,
               !.elems = IF d.elems.ne = 0 THEN EmptyElems ELSE @,
               !.nd = NormData(@), !.ed = NormData(@),
               !.nsf = IF ext THEN @ ELSE EmptySpec.nsf,
               !.curves = IF ext THEN @ ELSE <<>>,
               !.patches = IF ext THEN @ ELSE <<>> ]

(* C01 *)
RoundTrip41 == \A c \in Clients : LET s == sess[c] IN
    LoadedOwn(s) /\ Len(s.trail) = 1 /\ s.trail[1].ver = "4.1" /\ IsConsistent([s.orig EXCEPT !.fmt = s.trail[1]])
    => s.cur = Norm41(s.orig, s.trail[1], s.ext)

(* C02, C18: what every chain of conversions keeps. *)
Kept(a, b, ext) ==
    /\ NodeList(a) = NodeList(b)
    /\ ElemList(a) = ElemList(b)
    /\ a.phys = b.phys
    /\ NormData(a.nd) = NormData(b.nd) /\ NormData(a.ed) = NormData(b.ed) /\ a.end = b.end
    /\ ext => a.curves = b.curves /\ a.patches = b.patches /\ a.nsf = b.nsf

Conserved == \A c \in Clients : LET s == sess[c] IN
    LoadedOwn(s) => Kept(s.orig, s.cur, s.ext)

(* What the library writes it reads back: without damage a call only fails
   when the description cannot be saved. *)
OwnAccepted == \A c \in Clients : LET s == sess[c] IN
    s.own /\ s.fault[1] = "none" /\ s.phase = "failed" => s.out = "UnsupportedFeature" /\ SaveRefused(s.cur, WideTags)

(* C05: after a 2.2 load, blocks are maximal runs and totals are exact. *)
Maximal22(d) ==
    /\ \A i \in 1..(Len(d.nodes.blocks) - 1) :
         LET a == d.nodes.blocks[i]  b == d.nodes.blocks[i + 1] IN << a.dim, a.etag >> # << b.dim, b.etag >>
    /\ \A i \in 1..(Len(d.elems.blocks) - 1) :
         LET a == d.elems.blocks[i]  b == d.elems.blocks[i + 1]
         IN << a.dim, a.etag, a.type >> # << b.dim, b.etag, b.type >>
    /\ \A i \in 1..Len(d.nodes.blocks) : d.nodes.blocks[i].n > 0
    /\ \A i \in 1..Len(d.elems.blocks) : d.elems.blocks[i].n > 0
Exact22(d) ==
    LET N == NodeList(d)
        E == ElemList(d)
        NT == { N[i][1] : i \in 1..Len(N) }
        ET == { E[i][1] : i \in 1..Len(E) }
        Uses == [ i \in 1..Len(E) |-> ToSet(E[i][4]) ]
    IN
    /\ d.nodes.nb = Len(d.nodes.blocks) /\ d.nodes.nn = Len(N)
    /\ d.elems.nb = Len(d.elems.blocks) /\ d.elems.ne = Len(E)
    /\ IF NT = {} THEN d.nodes.mn = 0 /\ d.nodes.mx = 0 ELSE d.nodes.mn = Min(NT) /\ d.nodes.mx = Max(NT)
    /\ IF ET = {} THEN d.elems.mn = 0 /\ d.elems.mx = 0 ELSE d.elems.mn = Min(ET) /\ d.elems.mx = Max(ET)
    /\ \A i \in 1..Len(d.nodes.blocks) : \A j \in 1..d.nodes.blocks[i].n :
         LET b == d.nodes.blocks[i]
             U == { e \in 1..Len(E) : b.tags[j] \in Uses[e] }
         IN << b.dim, b.etag >> = IF U = {} THEN << 0, 0 >> ELSE << ElementDim[E[Max(U)][2]], E[Max(U)][3] >>
Resolves(d) ==
    LET N == NodeList(d)
        E == ElemList(d)
        T == { N[i][1] : i \in 1..Len(N) }
    IN \A i \in 1..Len(E) : ToSet(E[i][4]) \subseteq T
Grouped22 == \A c \in Clients : LET s == sess[c] IN
    Loaded(s) /\ s.cur.fmt.ver = "2.2" /\ s.fault[1] = "none"
    => Maximal22(s.cur) /\ Exact22(s.cur) /\ (Resolves(s.cur) => IsValid(s.cur))

(* C13: what is loaded from a consistent description is valid. *)
LoadedValid == \A c \in Clients : LET s == sess[c] IN
    LoadedOwn(s) /\ IsValid(s.orig) /\ Resolves(s.orig) => IsValid(s.cur)

(* C18: loading, saving in the same mode and loading again changes nothing,
   and the encoding does not matter. *)
Idempotent == \A c \in Clients : LET s == sess[c] IN
    LoadedOwn(s) => LET again == ReadAll(WriteAll(s.cur, s.ext), s.ext)
                        other == ReadAll(WriteAll([s.cur EXCEPT !.fmt.bin = 1 - @], s.ext), s.ext)
                    IN /\ again.p > 0 /\ other.p > 0
                       /\ again.v = s.cur
                       /\ [other.v EXCEPT !.fmt.bin = 1 - @] = s.cur

(* C11: cutting a file anywhere but between sections is noticed. *)
CutNoticed == \A c \in Clients : LET s == sess[c] IN
    s.fault[1] \in {"cut", "part"} /\ s.phase \in {"idle", "failed"} =>
        IF s.fault[1] = "cut" /\ (IF s.fault[2] = 1 THEN TRUE
                                   ELSE LET t == s.file[s.fault[2] - 1] IN IsKW(t) /\ SubSeq(t[3], 1, 4) = "$End")
        THEN s.phase = "idle"
        ELSE s.phase = "failed" /\ s.out # "unspecified"

(* C11: a word where a number belongs, and a missing value, are noticed. *)
NumKinds == {"n", "i", "t", "e", "d", "r"}
WordNoticed == \A c \in Clients : LET s == sess[c] IN
    s.phase \in {"idle", "failed"} =>
        /\ s.fault[1] = "word" /\ s.fault[4] \in NumKinds => s.phase = "failed"
        /\ s.fault[1] = "drop" /\ s.fault[4] = "d" => s.phase = "failed"
        /\ s.fault[1] \in {"drop", "word"} /\ s.fault[4] = "kw" => s.phase = "failed"

(* Loading always advances. *)
Total == \A c \in Clients : LET s == sess[c] IN s.phase = "reading" => s.pos <= Len(s.file) + 1

(* C14: a call during which the device failed does not end well. *)
FailureReported == \A c \in Clients : LET s == sess[c] IN
    s.fault[1] \in DeviceFaults => s.phase = "failed" /\ s.out = "io"

(* C13: the verdict is the predicate, and validating keeps the description. *)
VerdictRight == \A c \in Clients : LET s == sess[c] IN
    s.out \in {"valid", "CorruptData"} =>
        /\ s.phase = "idle"
        /\ (s.out = "valid") = IsValid(s.cur)
        /\ s.own /\ s.trail = <<>> => s.cur = s.orig

(* C15: the result of a session does not depend on other clients: it is the
   function of its own start computed without interleaving. *)
Independent == \A c \in Clients : LET s == sess[c] IN
    LoadedOwn(s) /\ Len(s.trail) = 1 =>
        s.cur = ReadAll(WriteAll([s.orig EXCEPT !.fmt = s.trail[1]], s.ext), s.ext).v

(* Every call ends. *)
Finishes == \A c \in Clients : (sess[c].phase \in {"writing", "reading"}) ~> (sess[c].phase \in {"file", "idle", "failed"})
=============================================================================
