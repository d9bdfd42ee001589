------------------------------ MODULE MCLogging ------------------------------
(* A mechanism with handlers and a "console installed" flag refines the switch *)
(* provided switching off clears the flag (ClearsFlag).                        *)
EXTENDS Logging
CONSTANTS ClearsFlag, MaxOps
VARIABLES sw, handlers, flag, root, n
vars == <<sw, handlers, flag, root, n>>
Init == sw = Start /\ handlers = <<>> /\ flag = FALSE /\ root = 30 /\ n = 0
SwitchOn(v) == /\ sw' = On(v) /\ root' = v
               /\ handlers' = [i \in 1..(Len(handlers) + IF flag THEN 0 ELSE 1) |->
                     [kind |-> IF i > Len(handlers) THEN "console" ELSE handlers[i].kind, level |-> v]]
               /\ flag' = TRUE
SwitchOff == /\ sw' = Off /\ handlers' = <<[kind |-> "null", level |-> 0]>> /\ root' = root
             /\ flag' = IF ClearsFlag THEN FALSE ELSE flag
(* the application adds a handler of its own *)
AddOwn == handlers' = Append(handlers, [kind |-> "own", level |-> 0]) /\ UNCHANGED <<sw, flag, root>>
Next == n < MaxOps /\ n' = n + 1 /\ ((\E k \in LevelNames : SwitchOn(Level[k])) \/ SwitchOff \/ AddOwn)
Spec == Init /\ [][Next]_vars
Shown(v) == IF v < root THEN 0 ELSE Cardinality({i \in 1..Len(handlers) : handlers[i].kind = "console" /\ v >= handlers[i].level})
Refines == sw.state # "start" => \A k \in LevelNames : Shown(Level[k]) = Copies(sw, Level[k])
=============================================================================
