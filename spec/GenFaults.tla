------------------------------ MODULE GenFaults ------------------------------
(***************************************************************************)
(* Fault scenarios for DataStore, exported for replay: start contents,      *)
(* entry point, position of the marker in the archive, one or two faulty    *)
(* attempts.  A fault position beyond the last step of the implementation   *)
(* simply does not fire.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, HttpFaults
CONSTANTS MaxK, Mode
Kinds == {"rsr", "lut"}
Priors == {"empty", "old", "junk", "current"}   \* current: forced re-download of a complete set
Orders == {"first", "middle", "last", "dotslash", "huge"}   \* huge: arrives in several pieces
Entries == {"check", "construct", "explicit", "explicitdest"}
F(t, k) == [t |-> t, k |-> k]
Faults ==
    {F(t, 0) : t \in HttpFaults \cup OddAnswers \cup {"connerr", "timeout", "notatar", "emptybody", "htmlbody", "plaintar"}}
    \cup {F("body-error", k) : k \in 0..4} \cup {F("body-timeout", k) : k \in 0..4}
    \cup {F("body-kill", k) : k \in 0..4}
    \cup {F("short-declared", k) : k \in 0..4}   \* fewer bytes than the declared length
    \cup {F("short", k) : k \in 0..9}            \* truncated, no declared length
    \cup {F("cut-inside", k) : k \in 0..2}        \* whole as a transfer, but what was packed ends inside a file
    \cup {F("fs-kill", k) : k \in 1..MaxK} \cup {F("fs-error", k) : k \in 1..MaxK}
    \cup {F("size-kill", k) : k \in 1..6} \cup {F("size-error", k) : k \in 1..6}
Scenario == [kind : Kinds, prior : Priors, order : Orders, entry : Entries]
Sensible(c) ==
    /\ (c.prior = "current" => c.entry \in {"explicit"})
    /\ (c.kind = "lut" => c.entry # "explicitdest")
    /\ (c.order = "huge" => c.kind = "rsr" /\ c.entry \in {"check", "explicit"} /\ c.prior \in {"old", "junk"})
VARIABLES sc, fs
Init == sc \in {c \in Scenario : Sensible(c)} /\ fs = <<>>
Next == /\ Len(fs) < (IF Mode = "one" THEN 1 ELSE 2)
        /\ \E f \in Faults : fs' = Append(fs, f)
        /\ UNCHANGED sc
Export == Len(fs) = (IF Mode = "one" THEN 1 ELSE 2) => PrintT("@@" \o ToJson([sc |-> sc, faults |-> fs]))
=============================================================================
