------------------------------ MODULE GenPlanck ------------------------------
(* Case classes for the Planck conformance test: every combination of       *)
(* function, form, input container, precision, rank and value class.        *)
EXTENDS Integers, Sequences, TLC, Json
Fwd == [op : {"fwd"}, form : {"wl", "wn"},
        cont : {"scalar", "list", "numpy", "fortran", "strided", "readonly", "swapped", "dask", "xarray", "xarray-dask"},
        dt : {"f8", "f4", "i4"}, rank : {1, 2}, chunk : {0, 1, 2},
        waves : {"scalar", "one", "many", "int", "int32"},
        cls : {"normal", "specials", "wide", "extreme", "nearzero"}]
Inv == [op : {"inv"}, form : {"wl", "wn"},
        cont : {"scalar", "npscalar", "numpy", "fortran", "strided", "readonly", "swapped", "masked", "dask", "xarray", "xarray-dask"},
        dt : {"f8", "f4", "i4"}, rank : {1, 2}, chunk : {0, 1, 2},
        waves : {"scalar", "np64", "np32", "keyword", "int", "int32"},
        cls : {"normal", "specials", "wide", "extreme"}]
Sensible(c) ==
    /\ (c.cont \notin {"dask", "xarray-dask"} => c.chunk = 0)
    /\ (c.cont \in {"scalar", "npscalar", "list"} => c.rank = 1)
    /\ (c.dt = "i4" => c.cls = "normal" /\ c.cont \in {"numpy", "dask", "scalar"} /\ c.form = "wl")
    /\ (c.dt = "f4" => c.cls \in {"normal", "specials", "nearzero"})
    /\ (c.op = "fwd" /\ c.cont = "scalar" => c.chunk = 0 /\ c.dt # "f4")
    /\ (c.op = "inv" /\ c.waves = "np32" => c.cls \notin {"wide", "extreme"})
    /\ (c.op = "inv" /\ c.cont = "scalar" => c.cls # "specials")
    /\ (c.op = "inv" /\ c.cont = "scalar" => c.dt = "f8" \/ c.dt = "i4")
    /\ (c.waves \in {"int", "int32"} => c.form = "wn" /\ c.cls = "normal" /\ c.dt # "f4")
VARIABLE c
Init == c \in {x \in Fwd \cup Inv : Sensible(x)}
Next == UNCHANGED c
Export == PrintT("@@" \o ToJson(c))
=============================================================================
