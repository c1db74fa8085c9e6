------------------------------ MODULE TraceMsh ------------------------------
(***************************************************************************)
(* Checks recorded executions of the library against the specification.    *)
(* A recording is a list of sessions, each a starting point and the events *)
(* that followed; an event is a call or what could be observed when it     *)
(* returned.  A session is accepted if the machine of MshIO has a behaviour *)
(* with these events: between a call and its return it takes its own steps, *)
(* section by section.                                                     *)
(***************************************************************************)
EXTENDS MshIO, Json, IOUtils

VARIABLES k, i        \* session, next event
tvars == << sess, k, i >>

Sessions == ndJsonDeserialize(IOEnv.MSH_TRACE)
TraceWide == 100000..1000000       \* ordinals of tags beyond 31 bits
TraceClients == {1}
NoStarts == {}
TraceModes == {}

Ev == Sessions[k].events[i]
Left == i <= Len(Sessions[k].events)
S == sess[1]

StartOf(x) ==
    IF x.kind = "spec" THEN SaveStart(x.spec, x.ext) ELSE FileStart(x.file, x.ext, x.label)

TraceInit ==
    /\ k \in 1..Len(Sessions) /\ i = 1
    /\ sess = [c \in {1} |-> StartOf(Sessions[k])]

Call(op) == Left /\ Ev.op = op /\ i' = i + 1 /\ UNCHANGED k
Inner == UNCHANGED << k, i >>

(* The recording compares what its property speaks about. *)
View(v, d) ==
    CASE v = "all"    -> d
      [] v = "noents" -> [d EXCEPT !.ents = EmptyEnts]
      [] v = "ents"   -> << d.ents, [j \in 1..Len(ElemList(d)) |-> << ElemList(d)[j][1], ElemList(d)[j][3] >>] >>
      [] v = "kept"   -> << NodeList(d), ElemList(d), d.phys, NormData(d.nd), NormData(d.ed), d.end, d.nsf, d.curves, d.patches >>
      [] v = "kept22" -> << d.fmt, NodeList(d), ElemList(d), d.phys, NormData(d.nd), NormData(d.ed), d.end, d.nsf, d.curves, d.patches,
                            d.nodes.nn, d.nodes.mn, d.nodes.mx, d.elems.ne, d.elems.mn, d.elems.mx >>
      [] v = "nothing" -> 0

Verdict(d) == IF IsValid(d) THEN "valid" ELSE "CorruptData"

Matches ==
    CASE Ev.op = "saved"     -> S.phase = "file" /\ (Ev.cmp => S.file = Ev.file)
      [] Ev.op = "refused"   -> S.phase = "failed"
      [] Ev.op = "loaded"    -> S.phase = "idle" /\ (S.trail # <<>> \/ ~S.own)
      [] Ev.op = "threw"     -> S.phase = "failed" /\ (Ev.ex = "" \/ S.out \in {"refused", "unspecified"} \/ Ev.ex = S.out)
      \* C11: what is refused, is; whatever else happens, the call has ended.
      [] Ev.op = "ended"     -> S.phase \in {"idle", "failed"} /\ (S.out = "refused" => Ev.threw)
      [] Ev.op = "validated" -> S.phase = "idle" /\ (Ev.out = Verdict(S.cur) \/ (Deviations(S.cur) # {} /\ Ev.out = AsBuilt(S.cur)))
      [] OTHER -> FALSE

Agrees == Ev.op = "loaded" => View(Ev.view, S.cur) = View(Ev.view, Ev.spec)

TraceNext ==
    \/ Call("save") /\ BeginSave(1, Ev.mode)
    \/ Call("load") /\ BeginLoad(1)
    \/ Inner /\ (WriteSection(1) \/ EndSave(1) \/ SkipStray(1) \/ LoadSection(1) \/ EndLoad(1))
    \/ /\ Left /\ S.phase \in {"file", "failed", "idle"}
       /\ Matches /\ Agrees
       /\ i' = i + 1 /\ UNCHANGED << k, sess >>

TraceSpec == TraceInit /\ [][TraceNext]_tvars

(* Progress, and where a recording parts from the specification. *)
Report ==
    /\ i > Len(Sessions[k].events) => PrintT(ToJson([accepted |-> k]))
    /\ (Left /\ S.phase \in {"file", "failed", "idle"} /\ Ev.op \notin {"save", "load"}) =>
         \/ Matches /\ Agrees
         \/ PrintT(ToJson([ rejected |-> k, event |-> i, phase |-> S.phase, out |-> S.out,
                            want |-> IF Ev.op = "saved" THEN S.file ELSE <<>>,
                            spec |-> IF Ev.op = "loaded" /\ S.phase = "idle" THEN S.cur ELSE EmptySpec ]))
(* What holds of every session holds of the recorded ones. *)
TraceInv == Conserved /\ RoundTrip41 /\ Grouped22
=============================================================================
