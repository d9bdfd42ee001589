------------------------------ MODULE TraceC01 ------------------------------
(* Recorded update-related calls against RsrGate. *)
EXTENDS RsrGate, TraceKit
VARIABLES l, st

Obs(e) == [d \in Dirs |-> [ex |-> e.dirs[d].ex, m |-> e.dirs[d].m, has |-> e.dirs[d].has]]
IsCall(e) == e.act \in {"check", "update", "download", "construct", "openfile"}

Fails(s0, e) ==
    IF e.act = "start" \/ ~IsCall(e) THEN {} ELSE
    LET n == IF Fetches(s0, e) THEN 1 ELSE 0
        s1 == Step(s0, e)
    IN  Clause("downloads-exactly-when-outdated-and-permitted", e.fetched = n)
        \cup Clause("no-network-otherwise", n = 1 \/ e.requests = 0)
        \cup Clause("right-address", e.urls_ok)
        \cup Clause("outcome", e.ok = (IF e.act = "construct" THEN ConstructOk(s0, e) ELSE ~(e.act = "openfile" /\ e.missing)))
        \cup Clause("missing-file-error", ((e.act = "construct" /\ ~ConstructOk(s0, e) /\ ~e.ok) \/ (e.act = "openfile" /\ e.missing /\ ~e.ok))
                                            => "FileNotFoundError" \in ToSet(e.errs))
        \cup Clause("reports-update-needed",
                    (e.act = "update" /\ e.ok) => (e.ret = IF Needed(s0) THEN "True" ELSE "False"))
        \cup Clause("directory-contents", Obs(e) = s1.dir)
        \cup Clause("released-content-intact", e.content_ok)
        \cup Clause("nothing-else-left-behind", e.extra = 0)
        \cup Clause("version-property",
                    (e.act = "openfile" /\ e.ok) =>
                        /\ e.version = FirstLine(s0.dir["rsr"].m)
                        /\ e.uptodate = ~Outdated(s0.dir["rsr"].m))

Upd(s0, e) ==
    IF e.act = "start" THEN Init0(e.m, e.f, e.hs)
    ELSE IF IsCall(e) THEN [Step(s0, e) EXCEPT !.dir = Obs(e)]   \* resynchronise on what is there
    ELSE Step(s0, e)

TInit == l = 1 /\ st = Init0("absent", "on", FALSE) /\ s = 0 /\ hist = <<>>
TNext == /\ l <= Len(Trace)
         /\ Report(l, Fails(st, Trace[l]))
         /\ l' = l + 1 /\ st' = Upd(st, Trace[l])
         /\ UNCHANGED <<s, hist>>
TraceSpec == TInit /\ [][TNext]_<<l, st, s, hist>>
=============================================================================
