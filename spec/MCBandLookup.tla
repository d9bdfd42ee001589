----------------------------- MODULE MCBandLookup -----------------------------
(* Over every instrument table, every key in it or in the generic table and *)
(* three kinds of response set: resolution is idempotent and complete.       *)
EXTENDS BandLookup
VARIABLES inst, key, kind
Insts == DOMAIN BandNames \cup {"unknown"}
Tab(i) == IF Has(BandNames, i) THEN BandNames[i] ELSE [x \in {} |-> x]
Targets(i) == {Tab(i)[k] : k \in DOMAIN Tab(i)}
GTargets == {BandNames["generic"][k] : k \in DOMAIN BandNames["generic"]}
Stored(i, k) == CASE k = "own" -> Targets(i) [] k = "generic" -> GTargets [] OTHER -> DOMAIN Tab(i)
Init == /\ inst \in Insts /\ kind \in {"own", "generic", "keys"}
        /\ key \in DOMAIN Tab(inst) \cup DOMAIN BandNames["generic"] \cup {"no such band"}
Next == UNCHANGED <<inst, key, kind>>
R == Lookup(inst, Stored(inst, kind), key)
Idempotent == R # NoBand => Lookup(inst, Stored(inst, kind), R) = R
Sound == R # NoBand => R \in Stored(inst, kind)
OwnAliasFound == (kind = "own" /\ key \in DOMAIN Tab(inst)) => R # NoBand
DirectWins == key \in Stored(inst, kind) => R = key
TranslateOnce == Translate(inst, Translate(inst, key)) = Translate(inst, key)
=============================================================================
