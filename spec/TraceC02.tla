------------------------------ MODULE TraceC02 ------------------------------
(* Recorded LUT-related calls against LutGate. *)
EXTENDS LutGate, TraceKit
VARIABLES l, st
IsCall(e) == e.act \in {"check", "download", "create"}

Fails(s, e) ==
    IF ~IsCall(e) THEN {} ELSE
    LET f == Fetched(s, e)  s1 == Step(s, e)  ref == Refused(e) IN
    IF ref
    THEN Clause("unsupported-names-refused", ~e.ok /\ "AttributeError" \in ToSet(e.errs))
         \cup Clause("refused-without-download", e.urls = <<>>)
         \cup Clause("refused-changes-nothing", e.m = s.m /\ e.tag = s.tag)
    ELSE Clause("call-succeeds", e.ok)
         \cup Clause("fetches-exactly-the-outdated-requested-types",
                     /\ Len(e.urls) = Cardinality(f)
                     /\ ToSet(e.urls) = {ArchiveName(t) : t \in f})
         \cup Clause("markers-afterwards", e.m = s1.m)
         \cup Clause("tables-in-own-directory", e.tag = s1.tag)
         \cup Clause("content-complete", e.complete)
         \cup Clause("nothing-else-left-behind", e.extra = 0)
         \cup Clause("uses-table-of-own-type-and-atmosphere",
                     (e.act = "create" /\ e.ok /\ s1.tag[e.type] # "") => (e.used = s1.tag[e.type] \o "/" \o e.atm))

Upd(s, e) == IF e.act = "start" THEN Start(e.p, e.f, e.full)
             ELSE IF IsCall(e) THEN [Step(s, e) EXCEPT !.m = e.m, !.tag = e.tag] ELSE Step(s, e)
TInit == l = 1 /\ st = Start("none", "on", FALSE)
TNext == /\ l <= Len(Trace)
         /\ Report(l, Fails(st, Trace[l]))
         /\ l' = l + 1 /\ st' = Upd(st, Trace[l])
TraceSpec == TInit /\ [][TNext]_<<l, st>>
=============================================================================
