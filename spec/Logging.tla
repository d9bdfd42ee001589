------------------------------- MODULE Logging -------------------------------
(***************************************************************************)
(* The console switch: state is "start" (never switched), "off", or on with   *)
(* a level.  A record of level v written through any logger appears on the    *)
(* console Copies times.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* the levels with a name, the lowest possible one and two of an application's own *)
Level == [NOTSET |-> 0, L5 |-> 5, L25 |-> 25, DEBUG |-> 10, INFO |-> 20, WARNING |-> 30, ERROR |-> 40, CRITICAL |-> 50]
LevelNames == DOMAIN Level
Start == [state |-> "start", level |-> 0]
Off == [state |-> "off", level |-> 0]
On(v) == [state |-> "on", level |-> v]
Copies(s, v) == IF s.state = "on" /\ v >= s.level THEN 1 ELSE 0
=============================================================================
