------------------------------- MODULE TbCache -------------------------------
(***************************************************************************)
(* The shared cache of temperature-to-radiance tables.  A calculator wants  *)
(* the table of its own configuration (a "key": platform, instrument, band, *)
(* detector, wave space).  It looks for the file Name(key); if there is one *)
(* it reads it, otherwise it computes the table, writes it and reads it.    *)
(* Several processes do this at the same time; any of them may die at any   *)
(* step.  A file holds [of, whole]: for which key it was computed and       *)
(* whether it is complete.                                                  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Procs, Keys, Atomic, FullName, MaxCrashes
(* Keys: records [band, det, space] *)
VARIABLES file, pc, want, tmp, got, crashes
vars == <<file, pc, want, tmp, got, crashes>>

AllKeys == [band : {"20", "21"}, det : {"det-1", "det-2"}, space : {"wl", "wn"}]
KeySet == IF Keys = "all" THEN AllKeys ELSE {k \in AllKeys : k.band = "20"}
Name(k) == IF FullName THEN k ELSE [band |-> k.band]
Names == {Name(k) : k \in KeySet}
None == [of |-> [band |-> "none", det |-> "none", space |-> "none"], whole |-> FALSE]
Table(k) == [of |-> k, whole |-> TRUE]
Part(k) == [of |-> k, whole |-> FALSE]

Init == /\ file = [n \in Names |-> None]
        /\ pc = [p \in Procs |-> "idle"]
        /\ want = [p \in Procs |-> CHOOSE k \in KeySet : TRUE]
        /\ tmp = [p \in Procs |-> None]
        /\ got = [p \in Procs |-> None]
        /\ crashes = 0

Start(p) == \E k \in KeySet :
    /\ pc[p] \in {"idle", "done"} /\ pc' = [pc EXCEPT ![p] = "look"]
    /\ want' = [want EXCEPT ![p] = k] /\ got' = [got EXCEPT ![p] = None]
    /\ UNCHANGED <<file, tmp, crashes>>
Look(p) ==
    /\ pc[p] = "look"
    /\ pc' = [pc EXCEPT ![p] = IF file[Name(want[p])] = None THEN "open" ELSE "read"]
    /\ UNCHANGED <<file, want, tmp, got, crashes>>
Open(p) ==
    /\ pc[p] = "open" /\ pc' = [pc EXCEPT ![p] = "write"]
    /\ IF Atomic THEN tmp' = [tmp EXCEPT ![p] = Part(want[p])] /\ UNCHANGED file
       ELSE file' = [file EXCEPT ![Name(want[p])] = Part(want[p])] /\ UNCHANGED tmp
    /\ UNCHANGED <<want, got, crashes>>
Write(p) ==
    /\ pc[p] = "write"
    /\ IF Atomic THEN /\ tmp' = [tmp EXCEPT ![p] = Table(want[p])] /\ UNCHANGED file
                      /\ pc' = [pc EXCEPT ![p] = "rename"]
       ELSE /\ file' = [file EXCEPT ![Name(want[p])] = Table(want[p])] /\ UNCHANGED tmp
            /\ pc' = [pc EXCEPT ![p] = "read"]
    /\ UNCHANGED <<want, got, crashes>>
Rename(p) ==
    /\ pc[p] = "rename" /\ pc' = [pc EXCEPT ![p] = "read"]
    /\ file' = [file EXCEPT ![Name(want[p])] = tmp[p]]
    /\ tmp' = [tmp EXCEPT ![p] = None]
    /\ UNCHANGED <<want, got, crashes>>
Read(p) ==
    /\ pc[p] = "read" /\ pc' = [pc EXCEPT ![p] = "done"]
    /\ got' = [got EXCEPT ![p] = file[Name(want[p])]]
    /\ UNCHANGED <<file, want, tmp, crashes>>
Crash(p) ==
    /\ pc[p] \notin {"idle", "done"} /\ crashes < MaxCrashes /\ crashes' = crashes + 1
    /\ pc' = [pc EXCEPT ![p] = "idle"] /\ tmp' = [tmp EXCEPT ![p] = None]
    /\ UNCHANGED <<file, want, got>>
Next == \E p \in Procs : Start(p) \/ Look(p) \/ Open(p) \/ Write(p) \/ Rename(p) \/ Read(p) \/ Crash(p)
Spec == Init /\ [][Next]_vars

(* Properties *)
OwnTable == \A p \in Procs : pc[p] = "done" => got[p] = Table(want[p])
NeverPartial == \A n \in Names : file[n] # None => file[n].whole
KeepsTables == [][\A n \in Names : file[n] # None => file'[n] = file[n]]_vars
=============================================================================
