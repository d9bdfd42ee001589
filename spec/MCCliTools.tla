------------------------------ MODULE MCCliTools ------------------------------
(***************************************************************************)
(* The composite plot as a process that goes through platforms and sensors:  *)
(* it must end with exactly the lines that the request defines, whatever      *)
(* data are there.  The design at the pinned commit kept the responses of      *)
(* the platform before when a platform carries none of the sensors.            *)
(***************************************************************************)
EXTENDS CliTools
CONSTANT Forgets          \* TRUE: the responses at hand are dropped at each platform
VARIABLES store, a, i, j, hand, drawn
vars == <<store, a, i, j, hand, drawn>>
None == [none |-> TRUE]
Det == [name |-> "det-1", x |-> <<"1", "2", "3">>, y |-> <<"0.1", "1", "0.5">>]
B(n, cw) == [name |-> n, cw |-> cw, dets |-> <<Det>>]
All == {[p |-> "A", s |-> "s", bands |-> <<B("1", "0.6"), B("2", "0.8")>>],
        [p |-> "B", s |-> "t", bands |-> <<B("1", "0.65"), B("3", "10.8")>>],
        [p |-> "C", s |-> "s", bands |-> <<B("1", "0.6")>>],
        [p |-> "C", s |-> "t", bands |-> <<B("1", "0.62")>>]}
Carries(p) == CASE p = "A" -> {"s"} [] p = "B" -> {"t"} [] OTHER -> {"s", "t"}
Args == [platforms : {<<p>> : p \in {"A", "B", "C"}} \cup {<<p, q>> : p, q \in {"A", "B", "C"}} \cup {<<"A", "B", "C">>, <<"C", "B", "A">>},
         sensors : {<<"s">>, <<"t">>, <<"s", "t">>, <<"t", "s">>}, mode : {"wavelength"}, wavelength : {"0.6", "10.8"},
         exclude : {<<>>, <<"1">>}, nolegend : {FALSE}, min : {"0.2"}]
Init == /\ store \in {SetToSeq(S) : S \in SUBSET All}
        /\ a \in {z \in Args : \A k, m \in 1..Len(z.platforms) : k # m => z.platforms[k] # z.platforms[m]}
        /\ i = 1 /\ j = 1 /\ hand = None /\ drawn = <<>>
(* one sensor of the current platform *)
TrySensor ==
    /\ i <= Len(a.platforms) /\ j <= Len(a.sensors)
    /\ IF a.sensors[j] \notin Carries(a.platforms[i]) THEN j' = j + 1 /\ hand' = hand
       ELSE LET o == Opened(store, a.platforms[i], a.sensors[j]) IN
            IF o = <<>> THEN j' = j + 1 /\ hand' = None ELSE j' = Len(a.sensors) + 1 /\ hand' = o[1]
    /\ UNCHANGED <<store, a, i, drawn>>
Draw == /\ i <= Len(a.platforms) /\ j > Len(a.sensors)
        /\ drawn' = IF hand = None THEN drawn ELSE drawn \o [k \in 1..Len(Must(hand, a)) |-> Line(hand, Must(hand, a)[k], a)]
        /\ i' = i + 1 /\ j' = 1 /\ hand' = (IF Forgets THEN None ELSE hand)
        /\ UNCHANGED <<store, a>>
Next == TrySensor \/ Draw
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == i > Len(a.platforms)
Right == Done => drawn = Lines(Sats(store, a), a, Must)
NoneTwice == Cardinality({drawn[k].label : k \in 1..Len(drawn)}) = Len(drawn)
Ends == <>Done
=============================================================================
