---------------------------- MODULE GenRawReaders ----------------------------
(* Every reader and platform, with classes of raw curves, read directly and   *)
(* through the converted file.                                                *)
EXTENDS RawReaders, Json
Case == [reader : Pairs, n : {3, 6, 11}, peak : {"one", "percent", "low"}, low : {"none", "some"}, dets : {1, 3, 32}, same : {"all", "none", "ends"}, op : {"read", "open", "wavenumber"}]
Wanted(c) == /\ (c.op = "wavenumber" => c.reader.r = "seviri")
             /\ (c.dets > 1 => c.reader.r \in {"modis", "viirs"})
             /\ (c.dets = 32 => c.n = 3 /\ c.low = "none" /\ c.peak = "one")
             /\ (c.same # "all" => c.dets > 1)
             /\ (c.peak = "percent" => MayBePercent(c.reader.r))
VARIABLE c
Init == c \in {z \in Case : Wanted(z)}
Next == UNCHANGED c
Export == PrintT("@@" \o ToJson([c EXCEPT !.reader = [c.reader EXCEPT !.bands = c.reader.bands]]
                                @@ [units |-> [i \in 1..Len(c.reader.bands) |-> Unit(c.reader.r, c.reader.p, c.reader.bands[i])]]))
=============================================================================
