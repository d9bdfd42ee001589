----------------------------- MODULE GenNirRefl -----------------------------
(* Histories of requests to one calculator.                                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen
Calc == [space : {"wavelength", "wavenumber"}, det : {1, 2}, flux : {"given", "derived"}, thr : {"85", "88", "60", "90"}, limit : {"85", "88", "none", "70", "95", "130"},
         band : {"name", "number"}]
Refl == [op : {"refl"}, cont : {"scalar", "list", "numpy", "fortran", "strided", "readonly", "swapped", "masked", "dask", "dask-masked", "xarray", "xarray-dask"}, dt : {"f8", "f4", "i4", "mix"},
         rank : {1, 2, 3}, many : {FALSE, TRUE}, co2 : {"none", "array", "scalar"}, sun : {"same", "scalar", "numpy"}, cls : {"day", "edges", "missing", "wild"}, table : {TRUE}]
        \cup [op : {"refl"}, cont : {"numpy"}, dt : {"f8"}, rank : {1}, many : {FALSE}, co2 : {"none", "array"}, sun : {"same"}, cls : {"day", "edges", "missing"}, table : {FALSE}]
Other == [op : {"emis"}] \cup [op : {"shape"}] \cup [op : {"method"}]
Sensible(r) == r.op = "refl" =>
    /\ (r.cont = "scalar" => r.rank = 1 /\ ~r.many /\ r.sun = "same" /\ r.co2 # "array" /\ r.dt # "mix")
    /\ (r.cont \in {"fortran", "strided"} => r.rank > 1)
    /\ (r.many => r.rank = 2 \/ r.cont = "dask")
    /\ (r.cont \in {"list", "xarray", "xarray-dask"} => r.dt = "f8")
    /\ (r.dt = "i4" => r.cls \in {"day", "edges"})
    /\ (r.cont \in {"masked", "dask-masked"} => r.cls = "missing")
    /\ (r.sun = "scalar" => r.cls # "edges")
Ops == {r \in Refl \cup Other : Sensible(r)}
ReflOps == {o \in Ops : o.op = "refl"}
OtherOps == Ops \ ReflOps
VARIABLES h, c
Init == h = <<>> /\ c \in Calc
(* one request at a time, drawn at random (TLC -simulate) *)
Draw(hist) == LET k == RandomElement(1..10) IN
        IF k <= 6 THEN RandomElement(ReflOps) ELSE IF k <= 9 THEN [op |-> "emis"] ELSE RandomElement(OtherOps)
Next == Len(h) < MaxLen /\ h' = Append(h, Draw(h)) /\ UNCHANGED c
Export == Len(h) = MaxLen => PrintT("@@" \o ToJson([ops |-> h, c |-> c]))
=============================================================================
