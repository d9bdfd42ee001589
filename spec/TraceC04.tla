------------------------------ MODULE TraceC04 ------------------------------
(***************************************************************************)
(* Recorded creations of calculators sharing a cache directory against      *)
(* TbCache.  Abstract state: the set of keys whose table is in place (and   *)
(* must therefore be read, not written again).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TraceKit
VARIABLES l, st
St0 == {}

(* TbCache!OwnTable: what a calculator computes is what it computes alone. *)
Same(r) == r.outcome = "ok" /\ r.rad = r.alone_rad /\ r.ref = r.alone_ref
Fails(s, e) ==
    IF e.act = "start" THEN {}
    ELSE IF e.act = "create" THEN
       Clause("creation-succeeds", e.r.outcome = "ok")
       \cup (IF e.r.outcome # "ok" THEN {} ELSE
             Clause("same-as-with-an-empty-cache", Same(e.r) \/ e.planted)
             \* TbCache!KeepsTables
             \cup Clause("existing-table-is-read-not-rebuilt", e.key \in s => ~e.changed)
             \cup Clause("configured-file-is-used", e.conf # "auto" => e.file_there)
             \cup Clause("planted-table-is-used", e.planted => e.used_planted))
    ELSE IF e.act = "again" THEN      \* an earlier calculator asked again after the others
       Clause("earlier-calculator-unaffected", Same(e.r))
    ELSE IF e.act = "race" THEN
       Clause("concurrent-creations-succeed", e.r.outcome = "ok" /\ e.r2.outcome = "ok")
       \cup Clause("concurrent-same-as-alone",
                   (e.r.outcome = "ok" => Same(e.r)) /\ (e.r2.outcome = "ok" => Same(e.r2)))
    ELSE Clause("survivor-same-as-alone", e.r.outcome = "ok" => Same(e.r))   \* die: it may also have finished

Upd(s, e) ==
    CASE e.act = "start" -> St0
      [] e.act = "create" /\ e.r.outcome = "ok" /\ ~e.planted -> s \cup {e.key}
      [] e.act = "race" -> s \cup {e.key, e.key2}
      [] OTHER -> s

TInit == l = 1 /\ st = St0
TNext == /\ l <= Len(Trace)
         /\ Report(l, Fails(st, Trace[l]))
         /\ l' = l + 1 /\ st' = Upd(st, Trace[l])
TraceSpec == TInit /\ [][TNext]_<<l, st>>
=============================================================================
