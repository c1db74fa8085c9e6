-------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* Histories of calls: every sequence of up to MaxCalls calls out of an     *)
(* alphabet of loads, saves and validations, including ones that throw.     *)
(* The library keeps no state, so the result of a call is given by its      *)
(* argument alone; the implementation must agree after every history.       *)
(***************************************************************************)
EXTENDS MC

CONSTANT MaxCalls
VARIABLE hist

LoadCall(ts)  == [op |-> "load", file |-> ts, spec |-> EmptySpec]
SaveCall(d, m) == [op |-> "save", file |-> <<>>, spec |-> [d EXCEPT !.fmt = m]]
ValCall(d)    == [op |-> "val", file |-> <<>>, spec |-> d]

B(m)  == [Base EXCEPT !.fmt = m]
M4(b) == Mode("4.1", b)
M2(b) == Mode("2.2", b)
Cut(q, k) == SubSeq(q, 1, Len(q) - k)
BadBlk == [dim |-> 2, etag |-> 1, type |-> 99, n |-> 1, data |-> <<1, 2>>]
(* Files cut in every section: before the end marker, and before the last
   thing in front of it. *)
EndsOf(ts) == { i \in 1..Len(ts) : IsKW(ts[i]) /\ SubSeq(ts[i][3], 1, 4) = "$End" }
CutsOf(ts) == LET K == SetToSortSeq(UNION { {i - 1, i - 2} : i \in EndsOf(ts) }, <) IN [j \in 1..Len(K) |-> LoadCall(SubSeq(ts, 1, K[j]))]
Alphabet ==
    CutsOf(CutFile(M2(0))) \o CutsOf(CutFile(M2(1))) \o CutsOf(CutFile(M4(0))) \o CutsOf(CutFile(M4(1)))
    \o CutsOf(WriteAll(B(M4(0)), FALSE)) \o CutsOf(WriteAll(B(M4(1)), FALSE)) \o
    << LoadCall(CutFile(M2(0))), LoadCall(CutFile(M2(1))), LoadCall(CutFile(M4(0))), LoadCall(CutFile(M4(1))),
       SaveCall(Base, M4(0)), SaveCall(Base, M4(1)), SaveCall(Base, M2(0)), SaveCall(Base, M2(1)),
       LoadCall(WriteAll(B(M4(0)), FALSE)), LoadCall(WriteAll(B(M4(1)), FALSE)),
       LoadCall(WriteAll(B(M2(0)), FALSE)), LoadCall(WriteAll(B(M2(1)), FALSE)),
       LoadCall(Cut(WriteAll(B(M4(0)), FALSE), 9)), LoadCall(Cut(WriteAll(B(M2(1)), FALSE), 7)),
       LoadCall(BadHeader("3.0", 0, 8, 1)), LoadCall(Header(M2(0)) \o Section("Entities", EntsBody(B(M4(0))))),
       LoadCall(PresenceFile([phys |-> 0, ents |-> 0, nodes |-> 0, elems |-> 0, data |-> 0], M4(0))),
       LoadCall(<< KW("$MeshFormat"), Tok(0, "w", "4.1"), Tok(0, "x", 1) >>),
       SaveCall(Small, M4(0)), SaveCall(Small, M4(1)), SaveCall(Small, M2(0)), SaveCall(Small, M2(1)),
       SaveCall([Base EXCEPT !.elems.blocks[2] = BadBlk], M4(1)),
       SaveCall([Base EXCEPT !.elems.blocks[2] = BadBlk], M2(0)), SaveCall(Base, Mode("3.0", 0)),
       ValCall(Base), ValCall([Base EXCEPT !.nodes.nn = 5]), ValCall([Base EXCEPT !.elems.mx = 5]) >>

ResultOf(c) ==
    CASE c.op = "load" -> LET r == ReadAll(c.file, FALSE) IN
                          [out |-> Outcome(r.p), cur |-> IF r.p > 0 THEN r.v ELSE EmptySpec, file |-> <<>>]
      [] c.op = "save" -> IF SaveRefused(c.spec, {}) THEN [out |-> "UnsupportedFeature", cur |-> c.spec, file |-> <<>>]
                          ELSE [out |-> "ok", cur |-> c.spec, file |-> WriteAll(c.spec, FALSE)]
      [] c.op = "val"  -> [out |-> IF IsValid(c.spec) THEN "ok" ELSE "CorruptData", cur |-> c.spec, file |-> <<>>]

CallInit == hist = <<>> /\ sess = <<>>
CallNext == /\ Len(hist) < MaxCalls
            /\ \E i \in 1..Len(Alphabet) : hist' = Append(hist, i)
            /\ UNCHANGED sess
CallSpec == CallInit /\ [][CallNext]_<< hist, sess >>

(* The alphabet itself once, then every history of full length. *)
EmitCalls ==
    /\ hist = <<>> => \A i \in 1..Len(Alphabet) :
         PrintT(ToJson([ id |-> i, call |-> Alphabet[i], res |-> ResultOf(Alphabet[i]) ]))
    /\ Len(hist) = MaxCalls => PrintT(ToJson([ hist |-> hist ]))
=============================================================================
