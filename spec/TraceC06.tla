------------------------------ MODULE TraceC06 ------------------------------
(* Recorded look-ups against BandLookup.  State: the response set under     *)
(* test ("open" event).                                                     *)
EXTENDS BandLookup, TraceKit
VARIABLES l, st
St0 == [inst |-> "", bands |-> <<>>, cws |-> <<>>, bset |-> {}]

Names(s, e) ==   \* e: look-ups of many keys in one event
    LET ok(i) == LET r == Lookup(s.inst, s.bset, e.keys[i]) IN
                 /\ e.got[i] = r
                 /\ e.raised[i] = (r = NoBand)
                 /\ e.gotget[i] = r
    IN \A i \in 1..Len(e.keys) : ok(i)
BadKeys(s, e) == {e.keys[i] : i \in {j \in 1..Len(e.keys) :
                   LET r == Lookup(s.inst, s.bset, e.keys[j]) IN e.got[j] # r \/ e.raised[j] # (r = NoBand) \/ e.gotget[j] # r}}
Wave(s, e) ==
    LET h == Hits(s.inst, s.bands, s.cws, e.w, e.eps) IN
    CASE Len(h) = 0 -> e.outcome = "none"
      [] Len(h) = 1 -> e.outcome = "one" /\ e.names = h
      [] OTHER -> IF e.multiple THEN e.outcome = "many" /\ e.names = h ELSE e.outcome = "error"
(* what is stored under the band the key resolves to *)
Things(s, e) ==
    LET val(k) == LET r == Lookup(s.inst, s.bset, k) IN IF r = NoBand THEN NoBand ELSE e.things[CHOOSE i \in 1..Len(e.bands) : e.bands[i] = r]
    IN \A i \in 1..Len(e.keys) : LET v == val(e.keys[i]) IN e.got[i] = v /\ e.gotget[i] = v /\ e.raised[i] = (v = NoBand)
Fails(s, e) ==
    CASE e.act = "open" -> {}
      [] e.act = "names" -> Clause("name-resolution", Names(s, e)) \cup Clause("lookup-changes-nothing", e.same)
      [] e.act = "things" -> Clause("name-resolution", Things(s, e)) \cup Clause("lookup-changes-nothing", e.same)
      [] e.act = "wave" -> Clause("wavelength-resolution", Wave(s, e)) \cup Clause("lookup-changes-nothing", e.same)
Upd(s, e) == IF e.act = "open" THEN [inst |-> e.inst, bands |-> e.bands, cws |-> e.cws, bset |-> ToSet(e.bands)] ELSE s
TInit == l = 1 /\ st = St0
TNext == /\ l <= Len(Trace)
         /\ Report(l, Fails(st, Trace[l]))
         /\ l' = l + 1 /\ st' = Upd(st, Trace[l])
TraceSpec == TInit /\ [][TNext]_<<l, st>>
=============================================================================
