------------------------------ MODULE DataStore ------------------------------
(***************************************************************************)
(* One locally cached data set (the RSR files, or the LUTs of one aerosol  *)
(* type): a directory with a version marker and data files, brought up to  *)
(* date by downloading an archive and unpacking it.  Steps are the         *)
(* separately observable disk states; a crash or fault may strike between  *)
(* any two of them.                                                        *)
(*                                                                         *)
(* File contents: "absent", "old" (some earlier release), "partial", "new".*)
(* Marker: "absent", "old", "cur".                                         *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Files,       \* data files of a release
          Chunks,      \* transfer units of the archive
          MaxFaults,   \* bound on crashes/faults in a behaviour
          MarkerLast   \* design choice: TRUE = marker removed first, written last
VARIABLES marker, file, tarball, pc, todo, got, faults, ok

vars == <<marker, file, tarball, pc, todo, got, faults, ok>>

(* The gate used everywhere in the package: only the marker counts. *)
UpToDate == marker = "cur"
Complete == \A f \in Files : file[f] = "new"

Init ==
    /\ marker \in {"absent", "old", "cur"}
    /\ IF marker = "cur" THEN file = [f \in Files |-> "new"]
       ELSE file \in [Files -> {"absent", "old", "partial"}]
    /\ tarball \in {"absent", "partial", "full"}   \* left-overs of earlier attempts
    /\ pc = "idle" /\ todo = {} /\ got = 0 /\ faults = 0 /\ ok = FALSE

(* A smart check that finds the data current does nothing. *)
CheckSkip == pc = "idle" /\ UpToDate /\ UNCHANGED vars

Begin(forced) ==
    /\ pc = "idle" /\ (forced \/ ~UpToDate)
    /\ pc' = "fetch" /\ got' = 0 /\ tarball' = "partial" /\ ok' = FALSE
    /\ UNCHANGED <<marker, file, todo, faults>>

FetchChunk ==
    /\ pc = "fetch" /\ got < Chunks
    /\ got' = got + 1
    /\ tarball' = IF got + 1 = Chunks THEN "full" ELSE "partial"
    /\ UNCHANGED <<marker, file, pc, todo, faults, ok>>

(* All of the archive is listed before anything is unpacked: an incomplete  *)
(* archive is noticed here.                                                 *)
Scan ==
    /\ pc = "fetch" /\ tarball = "full"
    /\ pc' = IF MarkerLast THEN "invalidate" ELSE "unpack"
    /\ todo' = Files \cup (IF MarkerLast THEN {} ELSE {"MARKER"})
    /\ UNCHANGED <<marker, file, tarball, got, faults, ok>>

Invalidate ==
    /\ pc = "invalidate" /\ marker' = "absent" /\ pc' = "unpack"
    /\ UNCHANGED <<file, tarball, todo, got, faults, ok>>

OpenFile(f) ==     \* truncates / creates
    /\ pc = "unpack" /\ f \in todo \cap Files /\ file[f] # "partial"
    /\ file' = [file EXCEPT ![f] = "partial"]
    /\ UNCHANGED <<marker, tarball, pc, todo, got, faults, ok>>

WriteFile(f) ==
    /\ pc = "unpack" /\ f \in todo \cap Files /\ file[f] = "partial"
    /\ file' = [file EXCEPT ![f] = "new"]
    /\ todo' = todo \ {f}
    /\ UNCHANGED <<marker, tarball, pc, got, faults, ok>>

WriteMarker ==
    /\ pc = "unpack"
    /\ IF MarkerLast THEN todo = {} ELSE "MARKER" \in todo
    /\ marker' = "cur"
    /\ todo' = todo \ {"MARKER"}
    /\ pc' = IF todo' = {} THEN "clean" ELSE "unpack"
    /\ UNCHANGED <<file, tarball, got, faults, ok>>

FinishUnpack ==    \* only in the naive design, when the marker was not the last member
    /\ pc = "unpack" /\ todo = {} /\ ~MarkerLast /\ pc' = "clean"
    /\ UNCHANGED <<marker, file, tarball, todo, got, faults, ok>>

Clean ==
    /\ pc = "clean" /\ tarball' = "absent" /\ pc' = "idle" /\ ok' = TRUE
    /\ UNCHANGED <<marker, file, todo, got, faults>>

(* HTTP error, broken transfer, unreadable archive, full disk (an exception *)
(* in the caller) or the death of the process: the attempt ends here.       *)
Fault ==
    /\ pc # "idle" /\ faults < MaxFaults
    /\ pc' = "idle" /\ todo' = {} /\ got' = 0 /\ faults' = faults + 1 /\ ok' = FALSE
    /\ UNCHANGED <<marker, file, tarball>>

Next == \/ CheckSkip \/ \E forced \in BOOLEAN : Begin(forced)
        \/ FetchChunk \/ Scan \/ Invalidate \/ WriteMarker \/ FinishUnpack \/ Clean \/ Fault
        \/ \E f \in Files : OpenFile(f) \/ WriteFile(f)

Progress == \/ Begin(FALSE) \/ FetchChunk \/ Scan \/ Invalidate \/ WriteMarker \/ FinishUnpack \/ Clean
            \/ \E f \in Files : OpenFile(f) \/ WriteFile(f)

Spec == Init /\ [][Next]_vars /\ WF_vars(Progress)

(* Properties *)
Safe == UpToDate => Complete
SuccessIsComplete == (ok /\ pc = "idle") => Complete /\ UpToDate /\ tarball = "absent"
Recovers == <>[](UpToDate \/ pc # "idle") /\ []<>(Complete /\ UpToDate)
=============================================================================
