------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* One call in a process whose global locale may change at any moment, on   *)
(* a stream that carries settings of its own.  The call puts the stream's   *)
(* settings aside when it begins and back when it ends, however it ends;    *)
(* while the settings in force are not the plain ones, text tokens would    *)
(* come out or be read as something else.                                   *)
(***************************************************************************)
EXTENDS MC

CONSTANTS MaxChanges,    \* of the global locale during a call
          Guarded        \* FALSE: the call uses the settings it finds (must violate Unaffected)

VARIABLES glob,      \* kind of the global locale
          strm,      \* settings of the stream at present
          given,     \* settings of the stream when the call began
          form,      \* "stream" or "file"
          which,     \* start
          envs,      \* global locale at each step of the call
          changed    \* number of changes so far
svars == << sess, glob, strm, given, form, which, envs, changed >>

(* "native": a locale of the system, C++ and C alike; "cnative": of C alone. *)
Kinds == {"classic", "comma", "ones", "space", "native", "cnative"}
Turns == {"classic", "comma", "native", "cnative"}
Plain == [flags |-> <<>>, prec |-> 6, width |-> 0, fill |-> " ", loc |-> "classic"]
Inside(x) == [x EXCEPT !.flags = <<>>, !.prec = 17, !.width = 0, !.loc = "classic"]
Safe(x) == x.flags = <<>> /\ x.prec >= 17 /\ x.width = 0 /\ x.loc = "classic"

Fl(q) == [Plain EXCEPT !.flags = q]
Loc(k) == [Plain EXCEPT !.loc = k]
StreamSettings ==
    { Fl(q) : q \in { <<"hex">>, <<"oct">>, <<"hex", "showbase", "uppercase">>, <<"showpos">>, <<"showpoint">>, <<"scientific">>, <<"fixed">>,
                     <<"scientific", "fixed">>, <<"boolalpha">>, <<"noskipws">>, <<"unitbuf">>, <<"left">>, <<"internal">>, <<"right">> } }
    \cup { [Plain EXCEPT !.prec = p] : p \in {0, 1, 3, 40} }
    \cup { [Plain EXCEPT !.width = w, !.fill = c] : w \in {1, 12, 40}, c \in {" ", "0", "*"} }
    \cup { Loc(k) : k \in Kinds \ {"cnative"} }
    \cup { [flags |-> <<"hex", "showbase", "noskipws", "boolalpha", "scientific", "left">>, prec |-> 2, width |-> 7, fill |-> "#", loc |-> k] : k \in Kinds \ {"cnative"} }
Changing == { Loc("classic"), Loc("comma"), [Fl(<<"noskipws", "fixed">>) EXCEPT !.loc = "ones"] }

B0(m) == [Base EXCEPT !.fmt = m]
Bad == [Base EXCEPT !.elems.blocks[2] = [dim |-> 2, etag |-> 1, type |-> 99, n |-> 1, data |-> <<1, 2>>]]
CutAt(ts, k) == SubSeq(ts, 1, Len(ts) - k)
Calls ==
    LET M == SetToSeq(Modes) IN
    [i \in 1..4 |-> [SaveStart(B0(M[i]), FALSE) EXCEPT !.label = "save"]]
    \o [i \in 1..4 |-> [SaveStart([SmallExt EXCEPT !.fmt = M[i]], TRUE) EXCEPT !.label = "save"]]
    \o [i \in 1..4 |-> [SaveStart([Bad EXCEPT !.fmt = M[i]], FALSE) EXCEPT !.label = "save"]]
    \o [i \in 1..4 |-> FileStart(CutFile(M[i]), FALSE, "load")]
    \o [i \in 1..4 |-> FileStart(WriteAll(B0(M[i]), FALSE), FALSE, "load")]
    \o [i \in 1..4 |-> FileStart(WriteAll([SmallExt EXCEPT !.fmt = M[i]], TRUE), TRUE, "load")]
    \o [i \in 1..4 |-> FileStart(CutAt(CutFile(M[i]), 5), FALSE, "load")]
    \o << FileStart(BadHeader("3.0", 0, 8, 1), FALSE, "load") >>

C == 1
S == sess[C]
begun == Calls[which]
CallEnded(s) == \/ s.phase = "failed" \/ (s.label = "save" /\ s.phase = "file") \/ (s.label = "load" /\ s.phase = "idle")
Begun == envs # <<>>

SetInit ==
    /\ which \in 1..Len(Calls) /\ sess = [c \in {C} |-> Calls[which]]
    /\ envs = <<>> /\ changed = 0
    /\ glob \in Kinds
    /\ \/ form = "stream" /\ given \in StreamSettings
       \* the stream the library opens takes the global locale of that moment
       \/ form = "file" /\ given = Loc(IF glob = "cnative" THEN "classic" ELSE glob)
    /\ strm = given

(* Text that does not come out as it should. *)
Garbled(q) == [i \in 1..Len(q) |-> IF q[i][1] = 0 THEN Tok(0, "x", 9) ELSE q[i]]

Step ==
    /\ ~CallEnded(S)
    /\ IF Safe(strm) \/ ~Begun
       THEN \/ BeginSave(C, begun.cur.fmt) \/ WriteSection(C) \/ EndSave(C)
            \/ BeginLoad(C) \/ SkipStray(C) \/ LoadSection(C) \/ EndLoad(C)
       ELSE IF S.label = "save"
            THEN Set(C, [S EXCEPT !.phase = "file", !.file = Garbled(WriteAll(S.cur, S.ext))])
            ELSE Set(C, [S EXCEPT !.phase = "failed", !.out = "misread"])
    /\ envs' = Append(envs, glob)
    /\ strm' = IF CallEnded(sess'[C]) THEN [given EXCEPT !.width = 0]
               ELSE IF Begun THEN strm
               ELSE IF Guarded THEN Inside(strm) ELSE strm
    /\ UNCHANGED << glob, given, form, which, changed >>

ChangeGlobal ==
    /\ Begun /\ ~CallEnded(S) /\ changed < MaxChanges
    /\ form = "stream" /\ given \in Changing
    /\ glob' \in Turns \ {glob}
    /\ changed' = changed + 1
    /\ UNCHANGED << sess, strm, given, form, which, envs >>

SetNext == Step \/ ChangeGlobal
SetSpec == SetInit /\ [][SetNext]_svars /\ WF_svars(SetNext)

(* C20: what the call gives is a function of its argument alone, and the
   stream gets its settings back (the field width counts as used up). *)
Unaffected == CallEnded(S) =>
    IF begun.label = "save"
    THEN IF SaveRefused(begun.cur, {}) THEN S.phase = "failed" /\ S.out = "UnsupportedFeature"
         ELSE S.phase = "file" /\ S.file = WriteAll(begun.cur, begun.ext)
    ELSE LET r == ReadAll(begun.file, begun.ext) IN
         IF r.p < 0 THEN S.phase = "failed" /\ S.out = Outcome(r.p) ELSE S.phase = "idle" /\ S.cur = r.v
Restored == CallEnded(S) => strm = [given EXCEPT !.width = 0]
PlainInside == Begun /\ ~CallEnded(S) => Safe(strm)
CallEnds == <>CallEnded(S)

(* The calls once, then every way through one of them. *)
EmitSettings ==
    /\ envs = <<>> /\ form = "file" /\ glob = "classic" =>
         PrintT(ToJson([ which |-> which, op |-> begun.label, spec |-> begun.cur, file |-> begun.file, ext |-> begun.ext ]))
    /\ CallEnded(S) => PrintT(ToJson([ which |-> which, given |-> given, form |-> form, envs |-> envs, out |-> S.out ]))
=============================================================================
