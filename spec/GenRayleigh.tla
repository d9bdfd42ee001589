----------------------------- MODULE GenRayleigh -----------------------------
EXTENDS Integers, Sequences, TLC, Json
Get == [op : {"get"}, cont : {"numpy", "fortran", "strided", "readonly", "swapped", "dask", "dask-uneven", "mixed", "npscalar"}, dt : {"f8", "f4", "i4", "mix"}, rank : {1, 2, 3},
        chunk : {0, 1, 2}, red : {"none", "dark", "cloudy"}, wave : {"in", "node", "low", "high", "name", "alias"},
        cls : {"normal", "edges", "nan"}]
Reduce == [op : {"reduce"}, cont : {"numpy", "dask", "xarray"}, dt : {"f8", "f4"}, rank : {1, 2}, chunk : {1}, red : {"none"}, wave : {"in"}, cls : {"normal", "edges"}]
Refuse == [op : {"refuse"}, cont : {"numpy", "dask"}, dt : {"f8"}, rank : {2}, chunk : {1}, red : {"none", "dark"}, wave : {"atm", "aerosol", "nofile", "corrupt", "noband", "missingdata"}, cls : {"normal"}]
Sensible(c) ==
    /\ (c.op = "get" =>
         /\ (c.cont \in {"dask"} \/ c.chunk = 0)
         /\ (c.cont = "npscalar" => c.rank = 1 /\ c.dt = "f8")
         /\ (c.dt = "i4" => c.cls # "nan")
         /\ (c.cls = "nan" => c.cont # "npscalar"))
VARIABLE c
Init == c \in {x \in Get \cup Reduce \cup Refuse : Sensible(x)}
Next == UNCHANGED c
Export == PrintT("@@" \o ToJson(c))
=============================================================================
