----------------------------- MODULE GenRsrGate -----------------------------
(* Histories of RsrGate, exported for replay.  m0/f0/h0 record the start.   *)
EXTENDS RsrGate, TLC, Json
VARIABLE start
GenInit == /\ \E m \in MarkerClasses, f \in Flags, h \in BOOLEAN :
                 s = Init0(m, f, h) /\ start = [m |-> m, f |-> f, h |-> h]
           /\ hist = <<>>
(* exhaustive mode: one call from every start state, then random tails by -simulate *)
GenNext == Next /\ UNCHANGED start
ExhNext == Len(hist) < 1 /\ \E a \in Calls : hist' = Append(hist, a) /\ s' = Step(s, a) /\ UNCHANGED start
Export == Len(hist) = Depth => PrintT("@@" \o ToJson([start |-> start, acts |-> hist]))
=============================================================================
