------------------------------- MODULE RsrFile -------------------------------
(***************************************************************************)
(* The internal file format of spectral responses and how it is read.      *)
(*                                                                         *)
(* A file: [platform_name, platform, sat_number, sensor, description]      *)
(* (the empty string = attribute absent) and a sequence of bands; a band:  *)
(* [name, ndet (0 = attribute absent), own, dets], where own and each of   *)
(* dets are levels [resp, wl, scale, cw]; << >> and "" stand for absent.    *)
(***************************************************************************)
EXTENDS Tables, FiniteSets

OscarNames == [x \in {"eos-2", "meteosat-11", "meteosat-10", "meteosat-9", "meteosat-8"} |->
    CASE x = "eos-2" -> "EOS-Aqua" [] x = "meteosat-11" -> "Meteosat-11" [] x = "meteosat-10" -> "Meteosat-10"
      [] x = "meteosat-9" -> "Meteosat-9" [] OTHER -> "Meteosat-8"]

NoLevel == [resp |-> <<>>, wl |-> <<>>, scale |-> "", cw |-> ""]
NDet(b) == IF b.ndet = 0 THEN 1 ELSE b.ndet
Det(b, i) == IF i <= Len(b.dets) THEN b.dets[i] ELSE NoLevel

(* Detector-level values take precedence over band-level ones, item by item. *)
Resp(b, i) == IF Det(b, i).resp # <<>> THEN Det(b, i).resp ELSE b.own.resp
WlLevel(b, i) == IF Det(b, i).wl # <<>> THEN Det(b, i) ELSE b.own
Cw(b, i) == IF Det(b, i).cw # "" THEN Det(b, i).cw ELSE b.own.cw

PlatformOf(f) ==
    LET p == IF f.platform_name # "" THEN f.platform_name
             ELSE IF f.platform # "" /\ f.sat_number # "" THEN f.platform \o "-" \o f.sat_number
             ELSE "None"
    IN IF p \in DOMAIN OscarNames THEN OscarNames[p] ELSE p
InstrumentOf(f) ==
    IF f.sensor # "" THEN f.sensor
    ELSE LET p == PlatformOf(f) IN IF Has(Instruments, p) THEN Instruments[p][1] ELSE "None"

(* What a reader returns for band b (values still in file units). *)
ReadBand(b) == [name |-> b.name,
                dets |-> [i \in 1..NDet(b) |-> [resp |-> Resp(b, i), wl |-> WlLevel(b, i).wl,
                                                scale |-> WlLevel(b, i).scale, cw |-> Cw(b, i)]]]
Read(f) == [i \in 1..Len(f.bands) |-> ReadBand(f.bands[i])]

(* The converter: responses (and central wavelengths) per detector, one     *)
(* wavelength axis per band; a single-detector band has everything on the   *)
(* band level.  raw: sequence of [name, wl, resps (one per detector), cws]. *)
WriteBand(r, multi) ==
    IF multi
    THEN [name |-> r.name, ndet |-> Len(r.resps), own |-> [resp |-> <<>>, wl |-> r.wl, scale |-> "1E-6", cw |-> ""],
          dets |-> [i \in 1..Len(r.resps) |-> [resp |-> r.resps[i], wl |-> <<>>, scale |-> "", cw |-> r.cws[i]]]]
    ELSE [name |-> r.name, ndet |-> 0, own |-> [resp |-> r.resps[1], wl |-> r.wl, scale |-> "1E-6", cw |-> r.cws[1]],
          dets |-> <<>>]
RoundTrips(raw, multi) ==
    LET f == [bands |-> [i \in 1..Len(raw) |-> WriteBand(raw[i], multi)]]
        g == Read(f)
    IN \A i \in 1..Len(raw) :
         /\ g[i].name = raw[i].name
         /\ Len(g[i].dets) = IF multi THEN Len(raw[i].resps) ELSE 1
         /\ \A d \in 1..Len(g[i].dets) :
               g[i].dets[d] = [resp |-> raw[i].resps[d], wl |-> raw[i].wl, scale |-> "1E-6", cw |-> raw[i].cws[d]]

(* Constructor arguments: which combinations are accepted. *)
ArgsOk(a) == (a.file /\ ~a.platform /\ ~a.instrument) \/ (~a.file /\ a.platform /\ a.instrument)
=============================================================================
