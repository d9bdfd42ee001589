------------------------------- MODULE TraceC15 -------------------------------
(* State: the files and the environment; every read against module Config.    *)
EXTENDS Config, TraceKit
VARIABLES l, st
Cont(e) == {<<e.content[i][1], IF e.content[i][1] \in DirSettings THEN <<e.content[i][2], e.content[i][3]>> ELSE e.content[i][2]>> : i \in 1..Len(e.content)}
Got(e) == {<<e.got[i][1], e.got[i][2]>> : i \in 1..Len(e.got)}
Fails(s, e) ==
    CASE e.act = "read" ->
           LET want == Read(s.files, s.e, e.ex)
               src == Source(s.files, s.e, e.ex)
           IN  IF ~want.ok THEN Clause(IF e.ex = "none" THEN "unusable-environment-variable-is-an-error" ELSE "missing-file-is-an-error", ~e.ok)
               ELSE Clause("read", e.ok)
                    \cup (IF ~e.ok THEN {} ELSE Clause("settings", Got(e) = want.set) \cup Clause("directories-exist", e.dirs))
      [] e.act = "use" ->
           LET want == Read(s.files, s.e, "none") IN
           IF ~want.ok THEN Clause("unusable-environment-variable-is-an-error", (e.rhas => ~e.rok) /\ ~e.lok)
           ELSE Clause("package-uses-current-settings",
                  /\ e.lok /\ e.lut_dir = Val(want.set, "rayleigh_dir") \o "/marine_clean_aerosol"
                  /\ e.rhas => /\ e.rok
                               /\ e.rsr_dir = Val(want.set, "rsr_dir")
                               /\ e.download = (Has(want.set, "download_from_internet") /\ Val(want.set, "download_from_internet") = "true"))
      [] OTHER -> {}
Upd(s, e) == CASE e.act = "write" -> [s EXCEPT !.files = (e.f :> Cont(e)) @@ s.files]
               [] e.act = "remove" -> [s EXCEPT !.files = [n \in DOMAIN s.files \ {e.f} |-> s.files[n]]]
               [] e.act = "env" -> [s EXCEPT !.e.env = e.v]
               [] e.act = "home" -> [s EXCEPT !.e.home = e.v]
               [] e.act = "xdg" -> [s EXCEPT !.e.xdg = e.v]
               [] e.act = "start" -> [files |-> [n \in {} |-> {}], e |-> [env |-> "unset", home |-> e.home, xdg |-> "unset"]]
               [] OTHER -> s
TInit == l = 1 /\ st = [files |-> [n \in {} |-> {}], e |-> [env |-> "unset", home |-> "", xdg |-> "unset"]]
TNext == /\ l <= Len(Trace)
         /\ Report(l, Fails(st, Trace[l]))
         /\ l' = l + 1 /\ st' = Upd(st, Trace[l])
TraceSpec == TInit /\ [][TNext]_<<l, st>>
=============================================================================
