-------------------------------- MODULE Unpack --------------------------------
(***************************************************************************)
(* Unpacking an untrusted archive into a directory.  Paths are sequences of *)
(* components; <<>> is the destination's parent ("outside"), <<"dest">> the *)
(* destination.  An archive is a sequence of members; each member is        *)
(* admitted (possibly with a changed name) or makes the unpacking stop.     *)
(* Policy "filter": names and link targets must resolve inside the          *)
(* destination, special files are refused, leading slashes are dropped.     *)
(* Policy "naive": everything is written where it says.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Policy, MaxLen

(* Member kinds.  t: file dir sym hard dev fifo; abs: absolute name;         *)
(* name, target: component sequences (".." = parent).                       *)
M(id, t, abs, name, tabs, target, evil) ==
    [id |-> id, t |-> t, abs |-> abs, name |-> name, tabs |-> tabs, target |-> target, evil |-> evil]
Members == {
  M("good",      "file", FALSE, <<"rsr_a.h5">>, FALSE, <<>>, FALSE),
  M("nested",    "file", FALSE, <<"sub", "deep", "rsr_b.h5">>, FALSE, <<>>, FALSE),
  M("dot",       "file", FALSE, <<".", "rsr_c.h5">>, FALSE, <<>>, FALSE),
  M("dir",       "dir",  FALSE, <<"sub">>, FALSE, <<>>, FALSE),
  M("innerlink", "sym",  FALSE, <<"alias.h5">>, FALSE, <<"rsr_a.h5">>, FALSE),
  M("updown",    "file", FALSE, <<"sub", "..", "rsr_d.h5">>, FALSE, <<>>, TRUE),
  M("dotdot",    "file", FALSE, <<"..", "victim">>, FALSE, <<>>, TRUE),
  M("newfile",   "file", FALSE, <<"..", "planted">>, FALSE, <<>>, TRUE),
  M("deepdotdot","file", FALSE, <<"sub", "..", "..", "victim">>, FALSE, <<>>, TRUE),
  M("absolute",  "file", TRUE,  <<"victim">>, FALSE, <<>>, TRUE),
  M("dirout",    "dir",  FALSE, <<"..", "planteddir">>, FALSE, <<>>, TRUE),
  M("prefix",    "file", FALSE, <<"..", "dest-evil">>, FALSE, <<>>, TRUE),
  M("symout",    "sym",  FALSE, <<"ln">>, FALSE, <<"..", "outdir">>, TRUE),
  M("symabs",    "sym",  FALSE, <<"ln">>, TRUE,  <<"outdir">>, TRUE),
  M("symfile",   "sym",  FALSE, <<"lf">>, FALSE, <<"..", "victim">>, TRUE),
  M("through",   "file", FALSE, <<"ln", "planted">>, FALSE, <<>>, FALSE),
  M("throughf",  "file", FALSE, <<"lf">>, FALSE, <<>>, FALSE),
  M("hardout",   "hard", FALSE, <<"hl">>, FALSE, <<"..", "victim">>, TRUE),
  M("hardabs",   "hard", FALSE, <<"hl">>, TRUE,  <<"victim">>, TRUE),
  M("overhard",  "file", FALSE, <<"hl">>, FALSE, <<>>, FALSE),
  \* "VERSION" stands for the name of the version marker, which every archive also has as a plain file
  M("marksym",   "sym",  FALSE, <<"VERSION">>, FALSE, <<"..", "victim">>, TRUE),
  M("markhard",  "hard", FALSE, <<"VERSION">>, FALSE, <<"..", "victim">>, TRUE),
  M("dev",       "dev",  FALSE, <<"dev0">>, FALSE, <<>>, TRUE),
  M("fifo",      "fifo", FALSE, <<"pipe">>, FALSE, <<>>, TRUE) }

Reserve == 4   \* longest chain of links followed
VARIABLES todo, links, hard, outside, refused
vars == <<todo, links, hard, outside, refused>>

(* Resolve a component sequence from a base (the base counts as real), with *)
(* symbolic links; a path above the world's root stays at the root.         *)
RECURSIVE Res(_, _, _)
Res(base, comps, fuel) ==
    IF comps = <<>> \/ fuel = 0 THEN base
    ELSE LET c == Head(comps) IN
         IF c = "." THEN Res(base, Tail(comps), fuel)
         ELSE IF c = ".." THEN Res(IF base = <<>> THEN <<>> ELSE SubSeq(base, 1, Len(base) - 1), Tail(comps), fuel)
         ELSE LET p == Append(base, c) IN
              IF p \in DOMAIN links
              THEN Res(IF links[p].tabs THEN <<>> ELSE base, links[p].target \o Tail(comps), fuel - 1)
              ELSE Res(p, Tail(comps), fuel)
Dest == <<"dest">>
Inside(p) == Len(p) >= 1 /\ p[1] = "dest"
Where(m) == Res(IF m.abs /\ Policy = "naive" THEN <<>> ELSE Dest, m.name, Reserve)
LinkTo(m) == Res(IF m.tabs THEN <<>> ELSE Dest, m.target, Reserve)
(* the entry itself (last component not followed), where a link is created *)
Entry(m) == LET n == m.name IN Append(Res(IF m.abs /\ Policy = "naive" THEN <<>> ELSE Dest, SubSeq(n, 1, Len(n) - 1), Reserve), n[Len(n)])

Refuse(m) ==
    Policy = "filter" /\
      \/ ~Inside(Where(m))
      \/ m.t \in {"dev", "fifo"}
      \/ m.t \in {"sym", "hard"} /\ (m.tabs \/ ~Inside(LinkTo(m)))

Step ==
    /\ todo # <<>> /\ ~refused
    /\ LET m == Head(todo) IN
       IF Refuse(m)
       THEN refused' = TRUE /\ UNCHANGED <<todo, links, hard, outside>>
       ELSE /\ todo' = Tail(todo)
            /\ refused' = FALSE
            /\ CASE m.t = "sym" ->
                      /\ links' = [p \in DOMAIN links \cup {Entry(m)} |->
                                    IF p = Entry(m) THEN [tabs |-> m.tabs, target |-> m.target] ELSE links[p]]
                      /\ UNCHANGED hard
                      /\ outside' = (outside \/ ~Inside(Entry(m)))
                 [] m.t = "hard" ->
                      /\ hard' = IF Inside(LinkTo(m)) THEN hard ELSE hard \cup {Entry(m)}
                      /\ UNCHANGED links
                      /\ outside' = (outside \/ ~Inside(Entry(m)))
                 [] OTHER ->
                      /\ UNCHANGED <<links, hard>>
                      /\ outside' = (outside \/ ~Inside(Where(m)) \/ Where(m) \in hard)

Archives == UNION {[1..n -> Members] : n \in 1..MaxLen}
Init == /\ todo \in Archives
        /\ links = << >> /\ hard = {} /\ outside = FALSE /\ refused = FALSE
Spec == Init /\ [][Step]_vars

Contained == ~outside
(* what is refused did try something, and harmless archives are unpacked *)
OnlyEvilRefused == refused => (Head(todo).evil)
-----------------------------------------------------------------------------
(* Generation *)
VARIABLE dummy
GInit == todo \in Archives /\ links = << >> /\ hard = {} /\ outside = FALSE /\ refused = FALSE /\ dummy = 0
GNext == UNCHANGED <<vars, dummy>>
Export == PrintT("@@" \o ToJson([members |-> todo]))
=============================================================================
