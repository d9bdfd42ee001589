------------------------------- MODULE GenConfig -------------------------------
(* Histories of a changing environment and reads.                             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen
Files == {"f1", "f2", "f3"}
Rsr == {"none", "~/a", "~/b", "~", "abs1", "abs2", "rel", "dollar"}
Write == [op : {"write"}, f : Files, kind : {"map", "map", "empty", "comments"}, rsr_dir : Rsr, rayleigh_dir : Rsr, tb2rad_dir : {"none", "T1", "T2"},
          dl : {"none", "true", "false"}, extra : {"none", "scalar", "nested", "other", "list", "emptymap", "dollar"}, sametime : BOOLEAN]
Read == [op : {"read"}, ex : {"none"}, as : {"str"}] \cup [op : {"read"}, ex : Files \cup {"gone", "emptyname", "dir", "tilde"}, as : {"str", "path"}]
Env == [op : {"env"}, v : Files \cup {"unset", "gone", "dir", "empty", "tilde"}]
Home == [op : {"home"}, v : {"h1", "h2"}] \cup [op : {"xdg"}, v : {"unset", "x1", "x2"}]
Other == {[op |-> "mutate"], [op |-> "rmdirs"], [op |-> "use"]} \cup [op : {"remove"}, f : Files]
VARIABLES h
Init == h = <<>>
Draw(hist) == LET k == RandomElement(1..20) IN
    IF k <= 5 THEN RandomElement(Write) ELSE IF k <= 12 THEN (IF RandomElement(1..3) < 3 THEN [op |-> "read", ex |-> "none", as |-> "str"] ELSE RandomElement(Read))
    ELSE IF k <= 15 THEN RandomElement(Env) ELSE IF k <= 16 THEN RandomElement(Home) ELSE RandomElement(Other)
Next == Len(h) < MaxLen /\ h' = Append(h, Draw(h))
Export == Len(h) = MaxLen => PrintT("@@" \o ToJson([ops |-> h]))
=============================================================================
