------------------------------- MODULE LutGate -------------------------------
(***************************************************************************)
(* Which atmospheric-correction (Rayleigh) tables are downloaded, from      *)
(* where and into which directory.                                          *)
(*                                                                         *)
(* s.m[t]    marker class of aerosol type t's directory ("none" = no        *)
(*           directory)                                                     *)
(* s.tag[t]  which type's tables lie in t's directory ("" = none, "before" = *)
(*           those of an earlier release)                                    *)
(* s.flag    download_from_internet: "on", "off", "absent"                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Types == {"antarctic_aerosol", "continental_average_aerosol", "continental_clean_aerosol",
          "continental_polluted_aerosol", "desert_aerosol", "marine_clean_aerosol",
          "marine_polluted_aerosol", "marine_tropical_aerosol", "rayleigh_only",
          "rural_aerosol", "urban_aerosol"}
MarkerFile(t) ==
    CASE t = "antarctic_aerosol" -> "PYSPECTRAL_ATM_CORR_LUT_AA"
      [] t = "continental_average_aerosol" -> "PYSPECTRAL_ATM_CORR_LUT_CAA"
      [] t = "continental_clean_aerosol" -> "PYSPECTRAL_ATM_CORR_LUT_CCA"
      [] t = "continental_polluted_aerosol" -> "PYSPECTRAL_ATM_CORR_LUT_CPA"
      [] t = "desert_aerosol" -> "PYSPECTRAL_ATM_CORR_LUT_DA"
      [] t = "marine_clean_aerosol" -> "PYSPECTRAL_ATM_CORR_LUT_MCA"
      [] t = "marine_polluted_aerosol" -> "PYSPECTRAL_ATM_CORR_LUT_MPA"
      [] t = "marine_tropical_aerosol" -> "PYSPECTRAL_ATM_CORR_LUT_MTA"
      [] t = "rural_aerosol" -> "PYSPECTRAL_ATM_CORR_LUT_RA"
      [] t = "urban_aerosol" -> "PYSPECTRAL_ATM_CORR_LUT_UA"
      [] t = "rayleigh_only" -> "PYSPECTRAL_ATM_CORR_LUT_RO"
ArchiveName(t) == "pyspectral_atm_correction_luts_"
                  \o (IF t = "rayleigh_only" THEN "no_aerosol" ELSE t) \o ".tgz"

Atmospheres == {"subarctic summer", "subarctic winter", "midlatitude summer",
                "midlatitude winter", "tropical", "us-standard"}
LutFile(atm) == CASE atm = "subarctic summer" -> "rayleigh_lut_subarctic_summer.h5"
                  [] atm = "subarctic winter" -> "rayleigh_lut_subarctic_winter.h5"
                  [] atm = "midlatitude summer" -> "rayleigh_lut_midlatitude_summer.h5"
                  [] atm = "midlatitude winter" -> "rayleigh_lut_midlatitude_winter.h5"
                  [] atm = "tropical" -> "rayleigh_lut_tropical.h5"
                  [] atm = "us-standard" -> "rayleigh_lut_us-standard.h5"

(* marker classes: none (no directory), absent (directory without marker), *)
(* cur, curpad, curlines (first line is the expected version), old, empty, *)
(* longer (expected version plus a character), newer                        *)
MarkerClasses == {"none", "absent", "cur", "curpad", "curlines", "old", "empty", "longer", "newer"}
Current(m) == m \in {"cur", "curpad", "curlines"}
Permitted(f) == f = "on"

DefaultType == "marine_clean_aerosol"

(* Requested types of a call: a sequence; "all" stands for the default. *)
Req(a) == IF a.types = <<"all">> THEN Types ELSE {a.types[i] : i \in 1..Len(a.types)}

Fetched(s, a) ==
    CASE a.act = "check" -> IF a.dry THEN {} ELSE {t \in Req(a) : ~Current(s.m[t])}
      [] a.act = "download" -> IF a.dry THEN {} ELSE Req(a)
      [] a.act = "create" -> IF a.type \in Types /\ a.atm \in Atmospheres /\ ~Current(s.m[a.type]) /\ Permitted(s.flag)
                             THEN {a.type} ELSE {}
      [] OTHER -> {}
Refused(a) ==
    CASE a.act = "create" -> a.type \notin Types \/ a.atm \notin Atmospheres
      [] a.act = "check" -> ~(Req(a) \subseteq Types)
      [] OTHER -> FALSE

Step(s, a) ==
    CASE a.act = "marker" -> [s EXCEPT !.m[a.type] = a.cls,
                                       !.tag[a.type] = IF a.cls = "none" THEN "" ELSE @]
      [] a.act = "flag" -> [s EXCEPT !.flag = a.val]
      [] a.act \in {"check", "download", "create"} /\ ~Refused(a) ->
            [s EXCEPT !.m = [t \in Types |-> IF t \in Fetched(s, a) THEN "cur" ELSE s.m[t]],
                      !.tag = [t \in Types |-> IF t \in Fetched(s, a) THEN t ELSE s.tag[t]]]
      [] OTHER -> s

Start(pattern, f, full) ==
    LET mk(t) == CASE pattern = "none" -> "none"
                   [] pattern = "cur" -> "cur"
                   [] pattern = "old" -> "old"
                   [] pattern = "mixed" -> IF t \in {"rayleigh_only", "urban_aerosol", "marine_clean_aerosol"} THEN "cur" ELSE "old"
                   [] OTHER -> IF t = pattern THEN "old" ELSE "cur"      \* exactly one outdated
    IN [m |-> [t \in Types |-> mk(t)], tag |-> [t \in Types |-> IF full /\ mk(t) # "none" THEN "before" ELSE ""], flag |-> f]
Patterns == {"none", "cur", "old", "mixed"} \cup Types
=============================================================================
