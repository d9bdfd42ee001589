------------------------------ MODULE BandLookup ------------------------------
(***************************************************************************)
(* Finding a band in a response set by one of its names or by wavelength.   *)
(***************************************************************************)
EXTENDS Tables, Dec, SequencesExt
NoBand == "NoBand"

(* stored: set of band names present.  Result: the stored name or NoBand. *)
Lookup(inst, stored, key) ==
    IF key \in stored THEN key
    ELSE IF Has(BandNames, inst) /\ Has(BandNames[inst], key)
         THEN IF BandNames[inst][key] \in stored THEN BandNames[inst][key] ELSE NoBand
    ELSE IF Has(BandNames["generic"], key) /\ BandNames["generic"][key] \in stored
         THEN BandNames["generic"][key]
    ELSE NoBand

(* Name under which a stored band is reported: translated once. *)
Translate(inst, band) ==
    LET t == IF Has(BandNames, inst) THEN BandNames[inst] ELSE BandNames["generic"]
    IN IF Has(t, band) THEN t[band] ELSE band

(* bands: sequence of names in file order, cws: their central wavelengths *)
Hits(inst, bands, cws, w, eps) ==
    LET close(i) == LET d == AbsD(Sub(cws[i], w)) IN Lt(d, "2") /\ Lt(d, eps)
        idx == SelectSeq([i \in 1..Len(bands) |-> i], close)
    IN [j \in 1..Len(idx) |-> Translate(inst, bands[idx[j]])]
=============================================================================
