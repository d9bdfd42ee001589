---------------------------- MODULE GenIrCorrection ----------------------------
EXTENDS Integers, Sequences, TLC, Json
Call == [op : {"corr"}, cont : {"numpy", "fortran", "strided", "masked", "nomask", "dask", "dask-masked", "readonly", "swapped"}, zcont : {"same", "numpy", "dask", "masked"},
         dt : {"f8", "f4"}, zdt : {"same", "f8", "i4"}, rank : {1, 2, 3}, chunk : {0, 1, 2}, cls : {"normal", "edges", "nan"}, again : BOOLEAN]
Refuse == [op : {"refuse"}, what : {"tropical", "us-standard", "midlatitude summer", "none", "empty"}]
Sensible(c) == c.op = "corr" =>
    /\ (c.cont \in {"dask", "dask-masked"} \/ c.chunk = 0)
    /\ (c.zcont = "masked" => c.cont \in {"masked", "dask-masked"})
    /\ (c.zcont = "dask" => c.cont \in {"dask", "dask-masked", "numpy", "masked"})
    /\ (c.zdt = "i4" => c.cls # "nan" /\ c.zcont = "same")
VARIABLE c
Init == c \in {x \in Call \cup Refuse : Sensible(x)}
Next == UNCHANGED c
Export == PrintT("@@" \o ToJson(c))
=============================================================================
