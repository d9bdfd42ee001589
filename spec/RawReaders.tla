------------------------------ MODULE RawReaders ------------------------------
(***************************************************************************)
(* The readers of the agencies' original response files: which platforms    *)
(* and bands each one serves, in which unit its raw abscissae are, and what  *)
(* the curve of a band is in micrometres.                                    *)
(***************************************************************************)
EXTENDS Curves, SequencesExt
Ch(a, b) == [i \in 1..(b - a + 1) |-> "ch" \o ToString(a + i - 1)]
Nums(a, b) == [i \in 1..(b - a + 1) |-> ToString(a + i - 1)]
Pre(s, q) == [i \in 1..Len(q) |-> s \o q[i]]
(* script, class, instrument in the configuration, platforms, bands, platforms converted by the script itself *)
R(r, script, cls, inst, ps, bands, main) ==
    [r |-> r, script |-> script \o ".py", cls |-> cls, inst |-> inst, ps |-> ps, bands |-> bands, main |-> main]
VII == <<"vii-4", "vii-8", "vii-12", "vii-15", "vii-16", "vii-17", "vii-20", "vii-22", "vii-23", "vii-24", "vii-25", "vii-26", "vii-28",
         "vii-30", "vii-33", "vii-34", "vii-35", "vii-37", "vii-39", "vii-40">>
Readers == {
  R("abi", "abi_rsr", "AbiRSR", "abi", {"GOES-16", "GOES-17", "GOES-18", "GOES-19"}, Ch(1, 16), {"GOES-16", "GOES-17", "GOES-18", "GOES-19"}),
  R("agri", "agri_rsr", "AGRIRSR", "agri", {"FY-4A"}, Ch(1, 14), {}),
  R("agri", "agri_rsr", "AGRIRSR", "agri", {"FY-4B"}, Ch(1, 15), {"FY-4B"}),
  R("ghi", "ghi_rsr", "GHIRSR", "ghi", {"FY-4B"}, Ch(1, 7), {"FY-4B"}),
  R("ami", "ami_reader", "AmiRSR", "ami", {"GEO-KOMPSAT-2A"}, Ch(1, 16), {"GEO-KOMPSAT-2A"}),
  R("avhrr", "avhrr_rsr", "AvhrrRSR", "avhrr/3", {"Metop-C", "Metop-A", "NOAA-15", "NOAA-19"}, <<"ch1", "ch2", "ch3a", "ch3b", "ch4", "ch5">>, {"Metop-C"}),
  R("avhrr", "avhrr_rsr", "AvhrrRSR", "avhrr/2", {"NOAA-14", "NOAA-7"}, Ch(1, 5), {}),
  R("avhrr", "avhrr_rsr", "AvhrrRSR", "avhrr/1", {"NOAA-10", "TIROS-N"}, Ch(1, 4), {}),
  R("cocts", "cocts_rsr", "COCTS_RSR", "cocts", {"HY-1C"}, Ch(1, 8), {"HY-1C"}),
  R("goci2", "goci2_rsr", "GOCI2RSR", "goci2", {"GK-2B"},
    <<"L380", "L412", "L443", "L490", "L510", "L555", "L620", "L660", "L680", "L709", "L745", "L865">>, {"GK-2B"}),
  R("mersi1", "mersi1_rsr", "Mersi1FY3ABRSR", "mersi-1", {"FY-3A", "FY-3C"}, Ch(1, 20), {}),
  R("mersi1b", "mersi1_rsr", "Mersi1FY3ABRSR", "mersi-1", {"FY-3B"}, Ch(1, 4) \o Ch(6, 20), {}),
  R("mersi2", "mersi2_rsr", "Mersi2RSR", "mersi-2", {"FY-3D"}, Ch(1, 25), {"FY-3D"}),
  R("mersi3", "mersi3_rsr", "Mersi3RSR", "mersi3", {"FY-3F"}, Ch(1, 25), {"FY-3F"}),
  R("mersirm", "mersirm_rsr", "MersiRMRSR", "mersi-rm", {"FY-3G"}, Ch(1, 8), {"FY-3G"}),
  R("msugs", "msu_gs_reader", "MsugsRSR", "msu-gs", {"Electro-L-N2"}, Ch(1, 10), {"Electro-L-N2"}),
  R("msugsa", "msu_gsa_reader", "MsugsaRSR", "msu-gsa", {"Arctica-M-N1"}, Ch(1, 10), {"Arctica-M-N1"}),
  R("slstrtxt", "slstr_rsr_txt", "SlstrTxtRSR", "slstr", {"Sentinel-3A", "Sentinel-3B", "Sentinel-3C", "Sentinel-3D"}, Ch(1, 9),
    {"Sentinel-3A", "Sentinel-3B", "Sentinel-3C", "Sentinel-3D"}),
  R("slstr", "slstr_rsr", "SlstrRSR", "slstr", {"Sentinel-3B", "Sentinel-3A"}, Ch(1, 9), {"Sentinel-3B"}),
  R("virr", "virr_rsr", "VirrRSR", "virr", {"FY-3B"}, Ch(1, 10), {}),
  R("virr", "virr_rsr", "VirrRSR", "virr", {"FY-3C"}, <<"ch1", "ch2">> \o Ch(6, 10), {}),
  R("modis", "modis_rsr", "ModisRSR", "modis", {"EOS-Terra", "EOS-Aqua"}, Nums(1, 36), {"EOS-Terra", "EOS-Aqua"}),
  R("viirs", "viirs_rsr", "ViirsRSR", "viirs", {"NOAA-21", "NOAA-20", "Suomi-NPP"}, Pre("M", Nums(1, 16)) \o Pre("I", Nums(1, 5)) \o <<"DNB">>, {"NOAA-21"}),
  R("fci", "fci_rsr", "FciRSR", "fci", {"Meteosat-12", "MTG-I1"},
    <<"VIS0.4", "VIS0.5", "VIS0.6_HR", "VIS0.8", "VIS0.9", "NIR1.3", "NIR1.6", "NIR2.2_HR", "IR3.8_HR", "WV6.3", "WV7.3", "IR8.7", "IR9.7",
      "IR10.5_HR", "IR12.3", "IR13.3">>, {"Meteosat-12", "MTG-I1"}),
  R("olci", "olci_rsr", "OlciRSR", "olci", {"Sentinel-3B", "Sentinel-3A"}, Pre("Oa0", Nums(1, 9)) \o Pre("Oa", Nums(10, 21)), {"Sentinel-3B"}),
  R("metimage", "metimage_rsr", "MetImageRSR", "metimage", {"Metop-SG-A1"}, VII, {"Metop-SG-A1"}),
  R("epic", "epic_reader", "EpicRSR", "epic", {"DSCOVR"}, <<"B317", "B325", "B340", "B388", "B443", "B551", "B680", "B688", "B764", "B780">>, {"DSCOVR"}),
  R("msi", "msi_reader", "MsiRSR", "msi", {"Sentinel-2A", "Sentinel-2B", "Sentinel-2C"},
    <<"B01", "B02", "B03", "B04", "B05", "B06", "B07", "B08", "B8A", "B09", "B10", "B11", "B12">>, {"Sentinel-2A", "Sentinel-2B", "Sentinel-2C"}),
  R("oli", "oli_tirs_reader", "OliRSR", "oli_tirs", {"Landsat-8", "Landsat-9"}, Pre("B", Nums(1, 11)), {"Landsat-8", "Landsat-9"}),
  R("seviri", "seviri_rsr", "Seviri", "seviri", {"Meteosat-8", "Meteosat-9", "Meteosat-10", "Meteosat-11"},
    <<"VIS0.6", "VIS0.8", "NIR1.6", "IR3.9", "WV6.2", "WV7.3", "IR8.7", "IR9.7", "IR10.8", "IR12.0", "IR13.4", "HRV">>,
    {"Meteosat-8", "Meteosat-9", "Meteosat-10", "Meteosat-11"}),
  R("avhrr1", "avhrr1_rsr", "AvhrrRSR", "avhrr/1", {"TIROS-N", "NOAA-6", "NOAA-8", "NOAA-10"}, Ch(1, 4), {"TIROS-N", "NOAA-6", "NOAA-8", "NOAA-10"}),
  R("aatsr", "aatsr_reader", "AatsrRSR", "aatsr", {"Envisat"}, <<"ir12", "ir11", "ir37", "v16", "v870", "v659", "v555">>, {"Envisat"}),
  R("ahi", "ahi_reader", "AhiRSR", "ahi", {"Himawari-8", "Himawari-9"}, Ch(1, 16), {"Himawari-8", "Himawari-9"}) }
Pairs == UNION {{[r |-> x.r, script |-> x.script, cls |-> x.cls, inst |-> x.inst, p |-> p, bands |-> x.bands, main |-> p \in x.main] : p \in x.ps} : x \in Readers}

Solar == {Nums(1, 19)[i] : i \in 1..19} \cup {"26"}     \* the short-wave bands of MODIS
InSet(q, b) == \E i \in 1..Len(q) : q[i] = b
Unit(r, p, b) ==
    CASE r \in {"abi", "slstr", "metimage", "msugsa", "aatsr", "ahi", "seviri"} -> "um"
      [] r = "agri" -> IF p = "FY-4A" THEN (IF InSet(Ch(1, 3), b) THEN "nm" ELSE "um") ELSE (IF InSet(Ch(1, 6), b) THEN "nm" ELSE "um")
      [] r = "ghi" -> IF b = "ch7" THEN "um" ELSE "nm"
      [] r = "avhrr" -> IF p \in {"NOAA-10", "TIROS-N"} THEN "nm" ELSE "um"
      [] r \in {"ami", "msugs", "slstrtxt"} -> "cm-1"
      [] r = "modis" -> IF b \in Solar \/ p = "EOS-Aqua" THEN "nm" ELSE "um"
      [] r = "fci" -> "m"
      [] r = "avhrr1" -> IF p = "NOAA-8" THEN "A" ELSE "nm"
      [] OTHER -> "nm"
Normalised(r) == r \in {"goci2", "epic", "metimage"}      \* to a maximum of one
MayBePercent(r) == r \in {"agri", "ghi"}                  \* given as a fraction or in percent
DropsNegligible(r) == r \in {"agri", "ghi", "mersi1", "mersi1b", "oli", "msi"}
Negligible == "0.002"
NoData == "-99"

(* The curve of a band from its raw points, as a sequence of <<micrometre, response>> *)
Points(x, y) == [i \in 1..Len(x) |-> <<x[i], y[i]>>]
Micro(u, v) == CASE u = "nm" -> Div(v, "1000") [] u = "um" -> v [] u = "A" -> Div(v, "10000") [] u = "m" -> Mul(v, "1000000") [] u = "cm-1" -> Div("10000", v)
Curve(r, p, b, x, y) ==
    LET u == Unit(r, p, b)
        m == MaxSeq(y)
        f == IF Normalised(r) THEN m ELSE IF MayBePercent(r) /\ Gt(m, "1") THEN "100" ELSE "1"
        q == [i \in 1..Len(x) |-> <<Micro(u, x[i]), Div(y[i], f)>>]
        valid == IF r = "modis" THEN SelectSeq(q, LAMBDA z : ~Eq(z[2], NoData)) ELSE q
        dir == IF u = "cm-1" THEN Reverse(valid) ELSE valid
        LtPt(z, w) == Lt(z[1], w[1])
    IN IF r = "modis" THEN SortSeq(dir, LtPt) ELSE dir
Significant(r, q) == IF DropsNegligible(r) THEN SelectSeq(q, LAMBDA z : Gt(z[2], Negligible)) ELSE q
=============================================================================
