--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* What TLC runs: families as starting points, the invariants, and one     *)
(* conformance vector per finished call.                                   *)
(***************************************************************************)
EXTENDS Files, Json

CONSTANT FamNames     \* the families to start from

Saves(D, ext) == { SaveStart(d, ext) : d \in D }

FamOf(f) ==
    CASE f = "nodes" -> Saves(NodesFam(0), FALSE) [] f = "elems" -> Saves(ElemsFam(0), FALSE)
      [] f = "ents" -> Saves(EntsFam(0), FALSE) [] f = "phys" -> Saves(PhysFam(0), FALSE)
      [] f = "data" -> Saves(DataFam(0), FALSE) [] f = "combo" -> Saves(ComboFam(0), FALSE)
      [] f = "count" -> Saves(CountFam(0), FALSE) [] f = "spline" -> Saves(SplineFam(0), TRUE)
      [] f = "long" -> Saves(LongFam(0), FALSE) [] f = "big" -> { [x EXCEPT !.label = "big"] : x \in Saves(BigFam(0), FALSE) }
      [] f = "lone" -> { [x EXCEPT !.label = "lonelists"] : x \in Saves(LoneLists(0), FALSE) }
                       \cup { [x EXCEPT !.label = "lonerecords"] : x \in Saves(LoneRecords(0), FALSE) }
      [] f = "lonespline" -> { [x EXCEPT !.label = l] : x \in Saves(LoneSpline(0), TRUE), l \in {"lonelists", "lonerecords"} }
      [] f = "longspline" -> Saves(LongSplineFam(0), TRUE)
      [] f = "regroup" -> Saves(RegroupFam(0), FALSE) [] f = "chain" -> Saves(ChainFam(0), TRUE)
      [] f = "chain0" -> Saves(ChainFam(0), FALSE)
      [] f = "badtype" -> Saves(BadTypeFam(0), FALSE) [] f = "wide" -> Saves(WideFam(0), FALSE)
      [] f = "badver" -> Saves(BadTypeFam(0) \cup {Base, EmptySpec}, FALSE)
      [] f = "base" -> Saves({BaseExt}, TRUE) [] f = "small" -> Saves({SmallExt}, TRUE)
      [] f = "base0" -> Saves({Base}, FALSE) [] f = "small0" -> Saves({Small}, FALSE)
      [] f = "last0" -> Saves(LastFam(0), FALSE) [] f = "last" -> Saves(LastExtFam(0), TRUE)
      [] f = "strings" -> Saves(StringFam(0), FALSE)
      [] f = "perturb" -> Saves(PerturbFam(0), FALSE) [] f = "dangling" -> Saves(DanglingFam(0), FALSE)
      [] f = "presence41" -> PresenceStarts({ m \in Modes : m.ver = "4.1" })
      [] f = "presence22" -> PresenceStarts({ m \in Modes : m.ver = "2.2" })
      [] f = "files22" -> Files22Starts(0) [] f = "phys22" -> Files22Phys(0) [] f = "types22" -> AllTypes22(0)
      [] f = "manytags22" -> TagsMany22(0)
      [] f = "pairs22" -> Pairs22(0) [] f = "contra22" -> Contra22(0)
      [] f = "order" -> PermStarts(0) [] f = "repeat" -> RepeatStarts(0) [] f = "unknown" -> UnknownStarts(0) [] f = "like" -> LikeStarts(0)
      [] f = "stray" -> StrayStarts(0) [] f = "refuse" -> RefuseStarts(0) [] f = "splinefiles" -> SplineFiles(0)
      [] f = "cutfiles" -> CutFiles(0)
      [] f = "cutfilestext" -> { x \in CutFiles(0) : x.file[3][3] = 0 }

FamStarts == UNION { FamOf(f) : f \in FamNames }

AllModes == Modes
Modes41 == { m \in Modes : m.ver = "4.1" }
Modes22 == { m \in Modes : m.ver = "2.2" }
ModesBin == { m \in Modes : m.bin = 1 }
ModesText == { m \in Modes : m.bin = 0 }
NoModes == {}
OddModes == { Mode(v, b) : v \in BadVersions, b \in {0, 1} }
NoFaults == {}
TextFaults == {"drop", "word", "num", "dup"}
Cuts == {"cut", "part"}
WriteFaults == {"wfail"}
ReadFaults == {"rfail"}
One == {1}
Two == {1, 2}

(* One vector per finished call. *)
Vector(s) ==
    [ kind |-> IF s.own THEN "save" ELSE "file", label |-> s.label, ext |-> s.ext,
      orig |-> s.orig, trail |-> s.trail, file |-> s.file, fault |-> s.fault,
      out |-> s.out,
      cur |-> s.cur, valid |-> s.phase = "idle" /\ IsValid(s.cur),
      built |-> IF s.phase = "idle" THEN AsBuilt(s.cur) ELSE "",
      devs |-> IF s.phase = "idle" THEN SetToSeq(Deviations(s.cur)) ELSE <<>> ]

Finished(s) == (Loaded(s) /\ ~WithValidate) \/ s.phase = "failed" \/ s.out \in {"valid", "CorruptData"}
(* The verdict as built differs from the right one only by a known deviation. *)
BuiltDeviates == \A c \in Clients : LET s == sess[c] IN
    s.out \in {"valid", "CorruptData"} /\ s.out # AsBuilt(s.cur) => Deviations(s.cur) # {}

(* A file session starts with a file and nothing loaded yet. *)
EmitVectors == \A c \in Clients : Finished(sess[c]) =>
    PrintT(ToJson(Vector(sess[c])))
=============================================================================
