----------------------------- MODULE GenLutGate -----------------------------
EXTENDS LutGate, TLC, Json, SequencesExt
VARIABLES s, hist, start
CONSTANTS Depth, Mode
Subsets == {<<"all">>} \cup {<<t>> : t \in Types}
           \cup {<<"rayleigh_only", "urban_aerosol">>, <<"urban_aerosol", "marine_clean_aerosol", "desert_aerosol">>,
                 <<"continental_clean_aerosol", "continental_average_aerosol", "continental_polluted_aerosol">>,
                 <<"marine_tropical_aerosol", "marine_polluted_aerosol", "antarctic_aerosol", "rural_aerosol">>}
Calls == [act : {"check", "download"}, types : Subsets, dry : BOOLEAN]
         \cup [act : {"create"}, type : Types \cup {"volcanic_aerosol", "Urban_Aerosol", "urban"},
           atm : Atmospheres \cup {"venus", "Tropical", "us_standard", "US-STANDARD", "subarctic", " tropical", "midlatitude_summer"}]
         \cup {[act |-> "check", types |-> <<"urban_aerosol", "bogus">>, dry |-> FALSE]}
Edits == [act : {"marker"}, type : Types, cls : MarkerClasses] \cup [act : {"flag"}, val : {"on", "off", "absent"}]
Init == /\ \E p \in Patterns, f \in {"on", "off", "absent"}, full \in BOOLEAN :
             s = Start(p, f, full) /\ start = [p |-> p, f |-> f, full |-> full]
        /\ hist = <<>>
Do(a) == hist' = Append(hist, a) /\ s' = Step(s, a) /\ UNCHANGED start
Next == Len(hist) < Depth /\ IF Mode = "exh" THEN \E a \in Calls : Do(a)
                             ELSE IF Len(hist) % 2 = 0 THEN \E a \in Edits : Do(a) ELSE \E a \in Calls : Do(a)
Export == Len(hist) = Depth => PrintT("@@" \o ToJson([start |-> start, acts |-> hist]))
Spec == Init /\ [][Next]_<<s, hist, start>>
(* design properties *)
Act == hist'[Len(hist')]
OnlyRequested == [][Act.act \in {"check", "download"} =>
                      \A t \in Types \ Req(Act) : s'.m[t] = s.m[t] /\ s'.tag[t] = s.tag[t]]_<<s, hist, start>>
CurrentUntouched == [][Act.act \in {"check", "create"} =>
                      \A t \in Types : Current(s.m[t]) => s'.m[t] = s.m[t] /\ s'.tag[t] = s.tag[t]]_<<s, hist, start>>
OwnTables == \A t \in Types : s.tag[t] \in {"", "before", t}
=============================================================================
