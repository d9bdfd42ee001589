------------------------------ MODULE MCRsrFile ------------------------------
(* Exhaustive small files: reading is total and respects precedence, the    *)
(* converter's files read back as what was converted.                       *)
EXTENDS RsrFile
VARIABLES b, raw, multi
V == {<<>>, <<"1">>, <<"2">>}
Lv == {x \in [resp : V, wl : V, scale : {"1E-6", ""}, cw : {"", "c1", "c2"}] : (x.wl = <<>>) = (x.scale = "")}
Lv1 == {x \in Lv : x.resp # <<>> /\ x.wl # <<>> /\ x.cw # ""}   \* complete
Band == [name : {"x"}, ndet : {0, 1, 2}, own : Lv1 \cup {NoLevel}, dets : {<<>>} \cup {<<p>> : p \in Lv} \cup {<<p, q>> : p \in Lv1, q \in Lv}]
Complete(x) == x.own # NoLevel \/ \A i \in 1..NDet(x) : Det(x, i) \in Lv1
Raw == {<<r>> : r \in [name : {"x"}, wl : {<<"1">>, <<"3">>}, resps : {<<p, q>> : p, q \in {<<"1">>, <<"2">>}}, cws : {<<"c1", "c2">>}]}
Init == b \in {x \in Band : Complete(x)} /\ raw \in Raw /\ multi \in BOOLEAN
Next == UNCHANGED <<b, raw, multi>>
Total == \A i \in 1..NDet(b) : Resp(b, i) # <<>> /\ WlLevel(b, i).wl # <<>> /\ Cw(b, i) # ""
Precedence == \A i \in 1..NDet(b) :
    /\ (Det(b, i).resp # <<>> => Resp(b, i) = Det(b, i).resp)
    /\ (Det(b, i).wl # <<>> => WlLevel(b, i).wl = Det(b, i).wl /\ WlLevel(b, i).scale = Det(b, i).scale)
    /\ (Det(b, i).cw # "" => Cw(b, i) = Det(b, i).cw)
RoundTrip == RoundTrips(raw, multi)
=============================================================================
