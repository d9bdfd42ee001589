--------------------------- MODULE InstrumentNames ---------------------------
(***************************************************************************)
(* Resolving an instrument name on a platform.                              *)
(***************************************************************************)
EXTENDS Tables, Dec, FiniteSets, SequencesExt
Norm(i) == ReplaceS(ReplaceS(Lower(i), "/", ""), "-", "")
Carried(p) == {Norm(Instruments[p][j]) : j \in 1..Len(Instruments[p])}
Resolve(p, i) ==
    IF ~Has(Instruments, p) THEN Norm(i)
    ELSE IF Norm(i) \in Carried(p) THEN Norm(i)
    ELSE Norm(Instruments[p][1])
(* Two names for one instrument: equal, or the dash spelling of a catalogued slash name.  Other spellings of one
   instrument may or may not be recognised; different instruments never are. *)
DashNames == {"avhrr/1", "avhrr/2", "avhrr/3"}
MustBeSame(a, b) == a = b \/ (a \in DashNames /\ b = ReplaceS(a, "/", "-"))
MustDiffer(a, b) == Norm(a) # Norm(b)
FileName(p, i) == "rsr_" \o Resolve(p, i) \o "_" \o p \o ".h5"

(* The atmospheric correction: accepted name, or "refused". *)
NoSlash(i) == ReplaceS(i, "/", "")
Sensor(p, i) ==
    IF ~Has(Instruments, p) THEN NoSlash(i)
    ELSE IF Len(Instruments[p]) = 1 THEN NoSlash(Instruments[p][1])
    ELSE IF i \in ToSet(Instruments[p]) THEN NoSlash(i)
    ELSE "refused"

(* Domain for exploration: every catalogued instrument in several spellings. *)
AllInst == UNION {ToSet(Instruments[p]) : p \in Platforms} \cup {"avhrr", "nosuch", "mersi", "MERSI-2x", "avhrr/", "3", "a/b/c", "x-y-z/1-", "mersi--2", "avhrr//3"}
Upper(s) == IF s = "viirs" THEN "VIIRS" ELSE IF s = "virr" THEN "VIRR" ELSE IF s = "mersi-1" THEN "MERSI-1"
            ELSE IF s = "avhrr/3" THEN "AVHRR/3" ELSE IF s = "olci" THEN "OLCI" ELSE IF s = "slstr" THEN "Slstr"
            ELSE IF s = "modis" THEN "MODIS" ELSE IF s = "seviri" THEN "SEVIRI" ELSE IF s = "msu-gs" THEN "MSU-GS" ELSE s
Spellings(i) == {i, Upper(i), ReplaceS(i, "/", "-"), ReplaceS(i, "-", "/"), Norm(i), ReplaceS(i, "-", ""), ReplaceS(Upper(i), "-", "")}
Asked == UNION {Spellings(i) : i \in AllInst}
AllPlatforms == Platforms \cup {"Nowhere-1", "eos-aqua", "NOAA"}
=============================================================================
