---------------------------- MODULE GenTestHelpers ----------------------------
(* Histories of entering, using and leaving helpers; what is still open at the  *)
(* end of a history is left normally by the recorder.                          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen
Enter == [op : {"enter"}, kind : {"forbid"}, dir : {"own"}, dl : {FALSE}, ver : {TRUE}, bad : {FALSE}, wrap : {"cm", "decorator"}]
    \cup [op : {"enter"}, kind : {"conf"}, dir : {"own", "given"}, dl : BOOLEAN, ver : {TRUE}, bad : {FALSE}, wrap : {"cm"}]
    \cup [op : {"enter"}, kind : {"rsr"}, dir : {"own", "given", "rel"}, dl : BOOLEAN, ver : BOOLEAN, bad : {FALSE}, wrap : {"cm"}]
    \cup [op : {"enter"}, kind : {"tb", "all", "ray"}, dir : {"own", "given", "rel"}, dl : {FALSE}, ver : {TRUE}, bad : BOOLEAN, wrap : {"cm"}]
    \cup [op : {"enter"}, kind : {"rsrfiles"}, dir : {"given"}, dl : {FALSE}, ver : {TRUE}, bad : {FALSE}, wrap : {"cm"}]
Probe == [op : {"probe"}, what : {"conf", "rsr", "rsr", "luts", "tb", "net"}]
Leave == [op : {"leave"}] \cup [op : {"raise"}, depth : {1, 1, 2, 3}, cls : {"Exception", "Exception", "KeyboardInterrupt", "SystemExit", "FileNotFoundError"}]
VARIABLES h, c
Init == h = <<>> /\ c \in {"unset", "file", "other", "empty"}
Draw(hist) == LET k == RandomElement(1..20) IN
    IF hist = <<>> \/ k <= 7 THEN RandomElement(Enter) ELSE IF k <= 15 THEN RandomElement(Probe) ELSE RandomElement(Leave)
Next == Len(h) < MaxLen /\ h' = Append(h, Draw(h)) /\ UNCHANGED c
Export == Len(h) = MaxLen => PrintT("@@" \o ToJson([ops |-> h, c |-> c]))
=============================================================================
