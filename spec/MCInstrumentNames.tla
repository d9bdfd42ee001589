-------------------------- MODULE MCInstrumentNames --------------------------
EXTENDS InstrumentNames
VARIABLES p, i
Init == p \in AllPlatforms /\ i \in Asked
Next == UNCHANGED <<p, i>>
IsCarried == Has(Instruments, p) => Resolve(p, i) \in Carried(p)
Idempotent == Resolve(p, Resolve(p, i)) = Resolve(p, i)
Clean == LET r == Resolve(p, i) IN Norm(r) = r /\ ~ContainsS(r, "/") /\ ~ContainsS(r, "-")
Respected == (Has(Instruments, p) /\ Norm(i) \in Carried(p)) => Resolve(p, i) = Norm(i)
OnlyNormalised == ~Has(Instruments, p) => Resolve(p, i) = Norm(i)
(* The same-instrument relation never contradicts the resolution: names that must be the same resolve alike. *)
SameResolvesAlike == \A b \in Asked : (MustBeSame(i, b) => Resolve(p, i) = Resolve(p, b)) /\ ~(MustBeSame(i, b) /\ MustDiffer(i, b))
(* generation *)
GInit == p \in AllPlatforms /\ i = "-"
Export == PrintT("@@" \o ToJson([platform |-> p, carried |-> IF Has(Instruments, p) THEN Instruments[p] ELSE <<>>, asked |-> SetToSeq(Asked),
                                 norms |-> SetToSeq({Norm(x) : x \in Asked})]))
=============================================================================
