------------------------------ MODULE GenRsrFile ------------------------------
(* Case classes of spectral-response files and conversions.                 *)
EXTENDS Integers, Sequences, TLC, Json
File == [op : {"read"}, layout : {"flat", "det", "mixed", "override", "partial", "ndet-only"}, ndet : {0, 1, 2, 4},
         nbands : {1, 3}, enc : {"str", "bytes", "object"}, dt : {"f4", "f8"}, scale : {"1e-6", "1e-9", "1"},
         plat : {"name", "oscar", "number", "absent", "list", "unknown"}, sensor : BOOLEAN, by : {"file", "pathlib", "name"}]
Conv == [op : {"conv"}, ndet : {0, 1, 2, 4}, nbands : {1, 3}, inst : {"plain", "slash", "dash", "upper", "under"},
         nan : BOOLEAN, masked : BOOLEAN, by : {"name", "file"}]
Args == [op : {"args"}, file : BOOLEAN, platform : BOOLEAN, instrument : BOOLEAN, missing : BOOLEAN, kind : {"str", "path"}]
Ok(c) == /\ (c.op = "read" => /\ (c.ndet = 0) = (c.layout = "flat")
                              /\ (c.by = "name" => c.plat \in {"name", "list", "unknown"} /\ c.sensor))
VARIABLE c
Init == c \in {x \in File : Ok(x)} \cup Conv \cup Args
Next == UNCHANGED c
Export == PrintT("@@" \o ToJson(c))
=============================================================================
