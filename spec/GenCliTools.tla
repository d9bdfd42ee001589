----------------------------- MODULE GenCliTools -----------------------------
(* Requests to the three tools.  The recorder draws the responses.            *)
EXTENDS BandLookup, Json
S(p, s, bands, nd) == [p |-> p, s |-> s, bands |-> bands, nd |-> nd]
Cat == <<S("NOAA-19", "avhrr/3", <<"ch1", "ch2", "ch3b", "ch4">>, 1), S("Meteosat-10", "seviri", <<"VIS0.6", "VIS0.8", "IR10.8", "IR12.0">>, 1),
         S("Suomi-NPP", "viirs", <<"M5", "I1", "M15", "M16">>, 2), S("EOS-Terra", "modis", <<"1", "2", "31", "32">>, 11),
         S("GOES-16", "abi", <<"ch2", "ch3", "ch14">>, 1),
         S("GOES-17", "abi", <<"ch2", "ch3", "ch14">>, 1),
         S("Sentinel-3A", "olci", <<"Oa08", "Oa17">>, 1), S("Sentinel-3A", "slstr", <<"ch2", "ch7">>, 2),
         S("Demo-1", "camera", <<"red", "nir">>, 1)>>
ASSUME \A i \in 1..Len(Cat) : \A b \in ToSet(Cat[i].bands) : Translate(Cat[i].s, b) = b
(* other names by which the bands are known *)
AliasesOf(k, b) == LET t == IF Has(BandNames, Cat[k].s) THEN BandNames[Cat[k].s] ELSE BandNames["generic"] IN {a \in DOMAIN t : t[a] = b}
Aliases == [k \in 1..Len(Cat) |-> [b \in ToSet(Cat[k].bands) |-> SetToSeq({a \in AliasesOf(k, b) : Lookup(Cat[k].s, ToSet(Cat[k].bands), a) = b})]]
N == 1..Len(Cat)
Plats == {<<i>> : i \in N} \cup {<<i, j>> : i, j \in N} \cup {<<i, j, 1 + ((i * j) % Len(Cat))>> : i, j \in N}
Distinct(q) == \A i, j \in 1..Len(q) : i # j => Cat[q[i]].p # Cat[q[j]].p
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Find == [tool : {"find"}, sat : N, one : {"all", "name", "alias"}, thr : {"default", "0.05", "0.6"}, det : {"default", "last"}]
Plot == [tool : {"plot"}, sat : N, by : {"band", "wavelength"}, min : {"default", "0.3"}, lim : {"none", "inside", "zero"}, title : BOOLEAN]
Comp == [tool : {"composite"}, plats : {q \in Plats : Distinct(q)}, sensors : {"theirs", "first", "last", "reversed", "all"},
         mode : {"band", "wavelength", "range"}, missing : {"none", "first", "last", "damaged"}, opt : {"plain", "exclude", "nolegend", "out", "limits", "limits0", "min"}]
SolarPlot == [tool : {"solar"}, space : {"wavelength", "wavenumber", "default"}, color : {"default", "red"}, n : {3, 8, 20}, twice : BOOLEAN]
VARIABLE c
Init == c \in SolarPlot \cup Find \cup Plot \cup Comp
Next == UNCHANGED c
Export == PrintT("@@" \o ToJson(c @@ [cat |-> Cat, aliases |-> Aliases]))
=============================================================================
