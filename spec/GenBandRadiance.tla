--------------------------- MODULE GenBandRadiance ---------------------------
(* Case classes: how a radiance is asked for, with what, and from where.      *)
EXTENDS Integers, Sequences, TLC, Json
Conts == {"numpy", "fortran", "strided", "readonly", "swapped", "dask", "npscalar"}
Direct == [op : {"direct"}, space : {"wavelength", "wavenumber"}, det : {1, 2}, norm : BOOLEAN,
           cont : {"scalar", "list", "numpy", "strided", "dask", "npscalar"}, dt : {"f8", "f4", "i4"}, rank : {1, 2}, cls : {"inside", "wide"}]
Table == [op : {"table"}, space : {"wavelength", "wavenumber"}, det : {1, 2}, norm : BOOLEAN,
          res : {"0.1", "0.05", "0.5", "1", "0.25", "2"}, suffix : BOOLEAN]
Lookup == [op : {"lookup"}, space : {"wavelength", "wavenumber"}, src : {"made", "own"}, cont : Conts, dt : {"f8", "f4", "i4", "i2", "u2"}, rank : {1, 2, 3},
           chunk : {0, 1, 2}, res : {"0.1", "0.05", "0.5", "1", "0.25", "0.01"}, cls : {"inside", "edges", "extreme", "multiples"}]
Back == [op : {"back"}, space : {"wavelength", "wavenumber"}, det : {1, 2}, cont : {"numpy", "dask", "npscalar"}, dt : {"f8", "f4"}]
Sev == [op : {"sev"}, band : {"WV_062", "WV_073", "IR_039", "IR_087", "IR_097", "IR_108", "IR_120", "IR_134", "WV6.2", "WV7.3", "IR6.2", "IR7.3",
                              "IR3.9", "IR8.7", "IR9.7", "IR10.8", "IR12.0", "IR13.4"},
        plat : {"Meteosat-8", "Meteosat-9"}, cont : {"scalar", "numpy", "dask"}, dt : {"f8", "f4"}]
Refuse == [op : {"refuse"}, what : {"wavespace", "sev-lut", "sev-integrated", "sev-number", "sev-platform"}]
Sensible(c) ==
    /\ (c.op = "lookup" => (c.cont # "dask" => c.chunk = 0) /\ (c.cont = "npscalar" => c.rank = 1)
                           /\ (c.dt \in {"i2", "u2", "i4"} => c.res \in {"0.5", "1", "0.1", "0.25"} /\ c.cls # "multiples"))
    /\ (c.op = "direct" => (c.cont \in {"scalar", "list", "npscalar"} => c.rank = 1) /\ (c.cls = "wide" => c.dt = "f8")
                           /\ (c.cont = "list" => c.dt # "f4"))
VARIABLE c
Init == c \in {x \in Direct \cup Table \cup Lookup \cup Back \cup Sev \cup Refuse : Sensible(x)}
Next == UNCHANGED c
Export == PrintT("@@" \o ToJson(c))
=============================================================================
