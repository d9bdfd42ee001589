---------------------------- MODULE MCTestHelpers ----------------------------
(* Mechanism: every frame saves what it replaces when entered and puts it back *)
(* when left.  With SaveAtEntry the world is that of the stack at all times;    *)
(* a helper that saves when it is created and not when it is entered is not.    *)
EXTENDS TestHelpers
CONSTANTS MaxDepth, SaveAtEntry
VARIABLES stack, env, load, net, created
vars == <<stack, env, load, net, created>>
World == [env |-> env, load |-> load, net |-> net]
Init == stack = <<>> /\ env = 0 /\ load = 0 /\ net = 0 /\ created = [env |-> 0, load |-> 0, net |-> 0]
Create == Len(stack) < MaxDepth /\ created' = World /\ UNCHANGED <<stack, env, load, net>>
Enter == \E k \in Kinds : /\ Len(stack) < MaxDepth
    /\ LET id == Len(stack) + 1
           saved == IF SaveAtEntry THEN World ELSE created
       IN  /\ stack' = Append(stack, [kind |-> k, id |-> id, dl |-> FALSE, ver |-> TRUE, saved |-> saved])
           /\ env' = IF k \in GivesConfig THEN id ELSE env
           /\ load' = IF k \in GivesRsr THEN id ELSE load
           /\ net' = IF k = "forbid" THEN id ELSE net
    /\ UNCHANGED created
Leave == /\ stack # <<>>
         /\ LET f == stack[Len(stack)] IN
            /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
            /\ env' = IF f.kind \in GivesConfig THEN f.saved.env ELSE env
            /\ load' = IF f.kind \in GivesRsr THEN f.saved.load ELSE load
            /\ net' = IF f.kind = "forbid" THEN f.saved.net ELSE net
         /\ UNCHANGED created
Next == Create \/ Enter \/ Leave
Spec == Init /\ [][Next]_vars
Consistent == /\ env = ConfigFrame(stack) /\ load = RsrFrame(stack) /\ net = Inner(stack, {"forbid"})
=============================================================================
