----------------------------- MODULE TestHelpers -----------------------------
(***************************************************************************)
(* The helpers for other packages' tests as a stack of frames.  A frame:      *)
(*   kind  "forbid" | "conf" | "rsr" | "tb" | "ray" | "all" | "rsrfiles"       *)
(*   id    identity of the frame (its fake data carry it)                      *)
(*   dl    is downloading enabled in the configuration it installs             *)
(*   ver   is the fake response directory it makes up to date                  *)
(* What a frame provides holds while it is active; the innermost frame that    *)
(* provides something wins; outside of all frames the world is as before.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Kinds == {"forbid", "conf", "rsr", "tb", "ray", "all", "rsrfiles"}
GivesConfig == {"conf", "rsr", "tb", "ray", "all"}
GivesRsr == {"rsr", "tb", "ray", "all", "rsrfiles"}
GivesLuts == {"ray", "all"}
GivesTb == {"tb", "all"}
Inner(stack, kinds) == LET s == {i \in 1..Len(stack) : stack[i].kind \in kinds} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : j <= i
ConfigFrame(stack) == Inner(stack, GivesConfig)
RsrFrame(stack) == Inner(stack, GivesRsr)
Forbidden(stack) == Inner(stack, {"forbid"}) > 0
(* outer: is downloading enabled outside of all frames? *)
DownloadOn(stack, outer) == IF ConfigFrame(stack) = 0 THEN outer ELSE stack[ConfigFrame(stack)].dl
(* may a request for responses reach the network? *)
NetAllowed(stack, outer) == ~Forbidden(stack) /\ DownloadOn(stack, outer)
(* responses are certainly served from the fake data *)
Served(stack, outer) == RsrFrame(stack) > 0 /\ ~DownloadOn(stack, outer)
=============================================================================
