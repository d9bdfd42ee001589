---------------------------- MODULE GenBandLookup ----------------------------
EXTENDS Tables
VARIABLE c
Init == c \in [inst : DOMAIN BandNames \cup {"unknown", "avhrr3", "metimage"},
               store : {"targets", "some-targets", "keys", "some-keys", "mixed", "generic", "some-generic", "generic-keys", "overlap"},
               cwl : {"apart", "near", "equal", "grid"}, converted : BOOLEAN]
Next == UNCHANGED c
Export == PrintT("@@" \o ToJson(c))
=============================================================================
