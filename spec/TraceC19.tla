------------------------------ MODULE TraceC19 ------------------------------
(***************************************************************************)
(* Recorded downloads of hand-made archives against Unpack.                *)
(*  outside  : what changed outside the destination (paths)                 *)
(*  harmless : for every harmless member, is its content in place           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TraceKit
VARIABLES l, st
AnyEvil(e) == \E i \in 1..Len(e.evil) : e.evil[i]
Fails(s, e) ==
    \* Unpack!Contained
    Clause("nothing-outside-changed", e.outside = <<>>)
    \cup Clause("refused-archive-does-not-look-current", e.outcome # "ok" => ~e.looks_current)
    \* Unpack!OnlyEvilRefused
    \cup Clause("harmless-archive-accepted", ~AnyEvil(e) => e.outcome = "ok")
    \cup Clause("harmless-members-unpacked",
                e.outcome = "ok" => \A i \in 1..Len(e.harmless) : e.harmless[i])
    \cup Clause("special-files-never-created", ~e.special)
TInit == l = 1 /\ st = 0
TNext == /\ l <= Len(Trace)
         /\ Report(l, Fails(st, Trace[l]))
         /\ l' = l + 1 /\ st' = st
TraceSpec == TInit /\ [][TNext]_<<l, st>>
=============================================================================
