-------------------------------- MODULE Tables --------------------------------
(***************************************************************************)
(* The catalogues the package is built on, as part of the specification:    *)
(* which instruments a platform carries (in order of preference) and which  *)
(* names a band goes by, per instrument and generically.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Instruments == JsonDeserialize(IOEnv.SPECDATA \o "/instruments.json")
BandNames == JsonDeserialize(IOEnv.SPECDATA \o "/bandnames.json")
Platforms == DOMAIN Instruments
Has(f, k) == k \in DOMAIN f
=============================================================================
