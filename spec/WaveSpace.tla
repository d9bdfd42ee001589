------------------------------- MODULE WaveSpace -------------------------------
(***************************************************************************)
(* A response set as an object that is converted, once, from wavelengths    *)
(* (micrometre) to wavenumbers (1/cm), and queried.                          *)
(* A curve is [x, y]: abscissae and responses, sample i being (x[i], y[i]).  *)
(***************************************************************************)
EXTENDS Dec, SequencesExt, FiniteSets
ToWavenumber(c) == [x |-> Reverse([i \in 1..Len(c.x) |-> Div("10000", c.x[i])]), y |-> Reverse(c.y)]
Ascending(s) == \A i \in 1..(Len(s) - 1) : Lt(s[i], s[i + 1])
Integral(c) == Trapz(c.y, c.x)
Centroid(c) == Div(Trapz([i \in 1..Len(c.x) |-> Mul(c.x[i], c.y[i])], c.x), Trapz(c.y, c.x))

(* The object: wave space and curves.  Result of each operation. *)
Unit(space) == IF space = "wavelength" THEN "1e-6 m" ELSE "cm-1"
SiScale(space) == IF space = "wavelength" THEN "0.000001" ELSE "100"
ConvertObj(o) == IF o.space = "wavelength"
                 THEN [space |-> "wavenumber", curves |-> [k \in DOMAIN o.curves |-> ToWavenumber(o.curves[k])]]
                 ELSE o      \* refused, unchanged
=============================================================================
