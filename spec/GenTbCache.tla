------------------------------ MODULE GenTbCache ------------------------------
(***************************************************************************)
(* Histories of TbCache for replay: calculators created one after another   *)
(* in one cache directory, creations that die (at a file system operation,  *)
(* at a size limit, or at some call while writing), and two overlapping     *)
(* creations (two processes or two threads), the first one held at some point of its writing.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NKeys, MaxPos, Mode
K == 1..NKeys
Create == [op : {"create"}, key : K, at : {0}, key2 : {0}]
Die == [op : {"fskill", "sizekill", "callkill", "fserror"}, key : K, at : 0..MaxPos, key2 : {0}]
Race == [op : {"race", "threads"},   \* the second creation in another process, or another thread of the same one
          key : K, at : 0..MaxPos, key2 : K]
VARIABLES h, conf
Confs == {"auto", "dict", "dictlower", "string", "nonpz", "missingdir", "basename", "dotted", "replaced", "otherband", "otherplatform",
          "similarbands", "amongsimilar"}   \* names contained in, or containing, the name of the band
Init == h = <<>> /\ conf \in (IF Mode = "conf" THEN Confs ELSE {"auto"})
MaxLen == CASE Mode = "plain" -> 3 [] Mode = "race" -> 2 [] Mode = "die" -> 2 [] Mode = "conf" -> 2 [] OTHER -> 5
Next ==
    /\ Len(h) < MaxLen
    /\ UNCHANGED conf
    /\ \E s \in (CASE Mode = "plain" -> Create [] Mode = "conf" -> Create
                   [] Mode = "race" -> IF h = <<>> THEN {r \in Race : r.key = r.key2} ELSE Create
                   [] Mode = "die" -> IF h = <<>> THEN Die ELSE {c \in Create : c.key = h[1].key}
                   [] OTHER -> IF Len(h) = 4 THEN Create ELSE Create \cup Die \cup Race) :
         h' = Append(h, s)
Export == Len(h) = MaxLen => PrintT("@@" \o ToJson([hist |-> h, conf |-> conf]))
=============================================================================
