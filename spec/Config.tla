-------------------------------- MODULE Config --------------------------------
(***************************************************************************)
(* Which settings a configuration read returns.  A file's content is a set    *)
(* of pairs <<setting, value>> (nested settings by their dotted path); an     *)
(* environment is [env, home, xdg]: the value of PSP_CONFIG_FILE ("unset" or   *)
(* a file name), the home directory and the XDG data directory ("unset" or    *)
(* a path).  Files: a function from existing file names to contents.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Builtin == {<<"download_from_internet", "true">>}
DirSettings == {"rsr_dir", "rayleigh_dir"}
(* the file a read uses: "builtin", a file name, or "error" *)
Source(files, e, explicit) ==
    IF explicit # "none" THEN (IF explicit \in DOMAIN files THEN explicit ELSE "error")
    ELSE IF e.env = "unset" THEN "builtin"
    ELSE IF e.env \in DOMAIN files THEN e.env ELSE "error"
Content(files, src) == IF src = "builtin" THEN Builtin ELSE files[src]
UserData(e) == IF e.xdg = "unset" THEN e.home \o "/.local/share/pyspectral" ELSE e.xdg \o "/pyspectral"
Val(c, k) == (CHOOSE p \in c : p[1] = k)[2]
Has(c, k) == \E p \in c : p[1] = k
(* a value is a string; a value in the home directory is written as <<"~", rest>> in the specification *)
Expand(e, v) == IF v[1] = "~" THEN e.home \o v[2] ELSE v[2]
Dir(c, e, k) == IF Has(c, k) THEN Expand(e, Val(c, k)) ELSE UserData(e)
Settings(c, e) == {<<p[1], IF p[1] \in DirSettings THEN Expand(e, p[2]) ELSE p[2]>> : p \in c}
                  \cup {<<k, Dir(c, e, k)>> : k \in DirSettings}
(* [ok, set]: what a read returns *)
Read(files, e, explicit) ==
    LET s == Source(files, e, explicit)
    IN  IF s = "error" THEN [ok |-> FALSE, set |-> {}] ELSE [ok |-> TRUE, set |-> Settings(Content(files, s), e)]
=============================================================================
