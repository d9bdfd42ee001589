------------------------------- MODULE MCConfig -------------------------------
(* A reader with an optional memory, in a world that changes: with Memory =   *)
(* "none" every read is current; "path" (remember what was read per file) and *)
(* "alias" (hand out the remembered object itself) are not.                    *)
EXTENDS Config
CONSTANTS Memory
Names == {"f1", "f2"}
Contents == {{}, {<<"download_from_internet", "false">>}, {<<"rsr_dir", <<"~", "/a">>>>, <<"extra.a", "1">>}}
Envs == [env : {"unset", "f1", "f2", "gone"}, home : {"h1", "h2"}, xdg : {"unset", "x1"}]
VARIABLES files, e, mem, res, ex
vars == <<files, e, mem, res, ex>>
Init == /\ files = [n \in {} |-> {}] /\ e = [env |-> "unset", home |-> "h1", xdg |-> "unset"]
        /\ mem = [n \in {} |-> {}] /\ res = [ok |-> FALSE, set |-> {}, fresh |-> FALSE] /\ ex = "none"
Stale == res' = [res EXCEPT !.fresh = FALSE]
Write == \E n \in Names, c \in Contents : files' = (n :> c) @@ files /\ Stale /\ UNCHANGED <<e, mem, ex>>
Remove == \E n \in DOMAIN files : files' = [m \in DOMAIN files \ {n} |-> files[m]] /\ Stale /\ UNCHANGED <<e, mem, ex>>
Environ == \E v \in Envs : e' = v /\ Stale /\ UNCHANGED <<files, mem, ex>>
Mutate == /\ res.ok /\ Stale
          /\ IF Memory = "alias" /\ Source(files, e, ex) \in DOMAIN mem
             THEN mem' = (Source(files, e, ex) :> {<<"extra.a", "changed">>}) @@ mem ELSE mem' = mem
          /\ UNCHANGED <<files, e, ex>>
Get == \E x \in Names \cup {"none"} :
    LET s == Source(files, e, x) IN
    /\ ex' = x
    /\ IF Memory = "none" \/ s = "error" THEN mem' = mem
       ELSE mem' = mem @@ (s :> Content(files, s))
    /\ res' = IF s = "error" THEN [ok |-> FALSE, set |-> {}, fresh |-> TRUE]
              ELSE [ok |-> TRUE, fresh |-> TRUE, set |-> Settings(IF Memory = "none" THEN Content(files, s) ELSE mem'[s], e)]
    /\ UNCHANGED <<files, e>>
Next == Write \/ Remove \/ Environ \/ Mutate \/ Get
Spec == Init /\ [][Next]_vars
Current == res.fresh => (LET r == Read(files, e, ex) IN r.ok = res.ok /\ r.set = res.set)
DirsAlwaysThere == (res.fresh /\ res.ok) => \A k \in DirSettings : Has(res.set, k)
NoSilentFallback == (res.fresh /\ ex = "none" /\ e.env \notin DOMAIN files /\ e.env # "unset") => ~res.ok
ExplicitWins == (res.fresh /\ ex # "none") => (res.ok <=> ex \in DOMAIN files)
=============================================================================
