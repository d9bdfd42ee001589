------------------------------- MODULE GenCurves -------------------------------
(* Every small curve (abscissae from a small set, in any order, with           *)
(* duplicates; responses from a small set) and classes of longer random ones.  *)
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANTS MaxN, Mode
Ys == {0, 1, 2, 4}
Small == UNION {[x : [1..n -> 1..3], y : [1..n -> Ys], mode : {"small"}] : n \in 1..MaxN}
Line == UNION {[y : [1..n -> Ys], x : {[i \in 1..n |-> i]}, mode : {"small"}] : n \in 2..5}
Random == [mode : {"random"}, n : {2, 3, 5, 9, 17, 33}, order : {"inc", "dec", "shuffled"}, dup : {0, 1, 3, 120}, dt : {"f8", "f4", "i8", "i8f8", "f8f4", "f4f8", "f8i8"},
           peak : {"one", "percent", "low"}, weight : {"none", "scalar", "array", "rayleigh"}, thr : {"default", "0.15", "0.5", "0", "tie"},
           perc : {"default", "1", "5", "12.5", "25", "tie"}, cont : {"numpy", "strided", "readonly"},
           gap : {"wide", "close", "next", "metre"}]
VARIABLE c
Init == c \in (IF Mode = "small" THEN Small \cup Line ELSE {r \in RandomSubset(30000, Random) : r.dup < 100 \/ r.n = 33})
Next == UNCHANGED c
Export == PrintT("@@" \o ToJson(c))
=============================================================================
