------------------------------ MODULE GenLogging ------------------------------
(* All short and many long histories of the switch, logger requests and records. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, Mode
Lv == {"DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"}
Switch == [op : {"on"}, level : Lv \cup {"default", "NOTSET"}, as : {"int", "name"}] \cup {[op |-> "debug"], [op |-> "off"]}
Few == {[op |-> "on", level |-> "default", as |-> "int"], [op |-> "on", level |-> "ERROR", as |-> "int"], [op |-> "debug"], [op |-> "off"]}
Get == [op : {"get"}, name : {"pyspectral.a", "pyspectral.b", "other", "pyspectral"}]
Log == [op : {"log"}, name : {"root", "pyspectral.a", "pyspectral.b", "pyspectral.utils", "other", "pyspectral"}, level : Lv \cup {"L5", "L25"}]
(* the application attaches a handler of its own (not a console) to a logger *)
Own == [op : {"own"}, name : {"root", "pyspectral.a", "other"}, level : {"DEBUG", "CRITICAL", "NOTSET"}]
VARIABLES h
Init == h = <<>>
Draw(hist) == LET k == RandomElement(1..10) IN IF k <= 4 THEN RandomElement(Switch) ELSE IF k <= 5 THEN RandomElement(Get \cup Own) ELSE RandomElement(Log)
Step == IF Mode = "all" THEN \E o \in Few \cup {[op |-> "get", name |-> "pyspectral.a"]} : h' = Append(h, o) ELSE h' = Append(h, Draw(h))
Next == Len(h) < MaxLen /\ Step
Export == Len(h) = MaxLen => PrintT("@@" \o ToJson([ops |-> h]))
=============================================================================
