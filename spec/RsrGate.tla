------------------------------- MODULE RsrGate -------------------------------
(***************************************************************************)
(* When the RSR data are downloaded.  Atomic view: every public call is one *)
(* step (the steps inside a download are the subject of DataStore).         *)
(*                                                                         *)
(* s.dir[d]   what is in directory d: ex(ists), m(arker class), has (the    *)
(*            RSR file of the platform used)                                *)
(* s.flag     the download_from_internet setting: "on", "off", "absent",    *)
(*            or "builtin" (no user configuration; the packaged one says on)*)
(* s.served   marker content of the archive on the server, "curnl"/"old";   *)
(*            "redir" = as curnl, behind an HTTP redirect                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* Marker classes; V stands for the version the package expects.            *)
(* Only the first line, stripped, counts.                                   *)
FirstLine(m) ==
    CASE m \in {"cur", "curnl", "curpad", "curlines", "curcrlf"} -> "V"
      [] m = "absent" -> "v0.0.0"
      [] m \in {"empty", "blankthencur"} -> ""
      [] m \in {"old", "secondcur"} -> "v1.0.0"
      [] m = "newer" -> "v99.0.0"
      [] m = "longer" -> "V1"
      [] m = "inner" -> "x V"
      [] m = "comment" -> "V # current"
      [] OTHER -> "?"
MarkerClasses == {"cur", "curnl", "curpad", "curlines", "curcrlf", "absent", "empty", "blankthencur",
                  "old", "secondcur", "newer", "longer", "inner", "comment"}
Outdated(m) == FirstLine(m) # "V"

Flags == {"on", "off", "absent", "builtin"}
Permitted(f) == f \in {"on", "builtin"}
Dirs == {"rsr", "other", "new"}
Dests == {"none", "same", "other", "new"}
Target(dest) == IF dest \in {"none", "same"} THEN "rsr" ELSE dest
ServedMarker(v) == IF v = "redir" THEN "curnl" ELSE v

Init0(m, f, h) ==
    [dir |-> [d \in Dirs |-> IF d = "rsr" THEN [ex |-> TRUE, m |-> m, has |-> h]
                             ELSE [ex |-> d = "other", m |-> "absent", has |-> FALSE]],
     flag |-> f, served |-> "curnl"]

(* Does call a make the package fetch the archive? *)
Fetches(s, a) ==
    CASE a.act \in {"check", "update"} -> Outdated(s.dir["rsr"].m) /\ Permitted(s.flag) /\ ~a.dry
      [] a.act = "construct" -> Outdated(s.dir["rsr"].m) /\ Permitted(s.flag)
      [] a.act = "download" -> ~a.dry
      [] OTHER -> FALSE
Where(a) == IF a.act = "construct" THEN "rsr" ELSE Target(a.dest)

(* What an update check reports: whether an update was needed. *)
Needed(s) == Outdated(s.dir["rsr"].m)

Step(s, a) ==
    CASE a.act = "marker" -> [s EXCEPT !.dir["rsr"].m = a.cls]
      [] a.act = "rmfile" -> [s EXCEPT !.dir["rsr"].has = FALSE]
      [] a.act = "flag" -> [s EXCEPT !.flag = a.val]
      [] a.act = "serve" -> [s EXCEPT !.served = a.val]
      [] OTHER -> IF Fetches(s, a)
                  THEN [s EXCEPT !.dir[Where(a)] = [ex |-> TRUE, m |-> ServedMarker(s.served), has |-> TRUE]]
                  ELSE s

(* A construction succeeds iff its file is there after the update. *)
ConstructOk(s, a) == Step(s, a).dir["rsr"].has

Calls == [act : {"check", "update", "download"}, dry : BOOLEAN, dest : Dests]
         \cup {[act |-> "construct"], [act |-> "openfile"]}
Edits == [act : {"marker"}, cls : MarkerClasses] \cup [act : {"flag"}, val : Flags]
         \cup [act : {"serve"}, val : {"curnl", "old", "redir"}] \cup {[act |-> "rmfile"]}
Acts == Calls \cup Edits

-----------------------------------------------------------------------------
VARIABLES s, hist
CONSTANTS Depth
InitAll == /\ \E m \in MarkerClasses, f \in Flags, h \in BOOLEAN : s = Init0(m, f, h)
           /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E a \in Acts : hist' = Append(hist, a) /\ s' = Step(s, a)
Spec == InitAll /\ [][Next]_<<s, hist>>
View == s

(* Design properties *)
Act == hist'[Len(hist')]
NeverWithoutPermission ==
    [][(Act.act \in {"check", "update", "construct"} /\ ~Permitted(s.flag)) => s' = s]_<<s, hist>>
NeverWhenCurrent ==
    [][(Act.act \in {"check", "update", "construct"} /\ ~Outdated(s.dir["rsr"].m)) => s' = s]_<<s, hist>>
DryRunChangesNothing ==
    [][(Act.act \in {"check", "update", "download"} /\ Act.dry) => s' = s]_<<s, hist>>
ExplicitFileChangesNothing == [][Act.act = "openfile" => s' = s]_<<s, hist>>
UpdateHelps ==   \* a permitted update into the data directory from a current archive makes it current
    [][(Act.act \in {"check", "update"} /\ ~Act.dry /\ Permitted(s.flag) /\ s.served # "old"
        /\ Target(Act.dest) = "rsr") => ~Outdated(s'.dir["rsr"].m)]_<<s, hist>>
=============================================================================
