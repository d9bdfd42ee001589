------------------------------ MODULE TraceC03 ------------------------------
(***************************************************************************)
(* Recorded download attempts with faults.  After each attempt (including   *)
(* a kill) the directory is inspected and the package is asked, in a fresh  *)
(* process, whether it would download again.  The abstract state is that of *)
(* DataStore: status of every file of the release and of the marker.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TraceKit, HttpFaults
VARIABLES l, st
Complete(e) == \A i \in 1..Len(e.files) : e.files[i] = "new"

Fails(s, e) ==
    IF e.act = "start" THEN {} ELSE
       \* DataStore!Safe
       Clause("looks-current-only-if-complete", e.looks_current => Complete(e))
       \* DataStore!SuccessIsComplete
       \cup Clause("success-means-complete", e.outcome = "ok" => (Complete(e) /\ e.looks_current /\ ~e.tarball))
       \cup Clause("failed-transfer-is-an-error",
                   (e.fault \in HttpFaults \cup OddAnswers \cup {"connerr", "timeout", "notatar", "emptybody",
                                 "htmlbody", "body-error", "body-timeout", "cut-inside"} /\ e.fired) => e.outcome = "error")
       \* DataStore!Recovers, in one fault-free attempt
       \cup Clause("fault-free-attempt-completes", e.fault = "none" => e.outcome = "ok")
       \cup Clause("unrelated-files-kept", e.keep)

Upd(s, e) == s
TInit == l = 1 /\ st = 0
TNext == /\ l <= Len(Trace)
         /\ Report(l, Fails(st, Trace[l]))
         /\ l' = l + 1 /\ st' = st
TraceSpec == TInit /\ [][TNext]_<<l, st>>
=============================================================================
