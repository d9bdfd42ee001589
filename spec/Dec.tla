--------------------------------- MODULE Dec ---------------------------------
(***************************************************************************)
(* Real arithmetic on decimal numerals.                                    *)
(*                                                                         *)
(* TLC has no reals (and 32-bit integers), so a real number is represented *)
(* by a string holding a decimal numeral ("0.0037", "-1.5E-7"), "nan",     *)
(* "inf" or "-inf".  The operators below are given their meaning by the    *)
(* Java class Dec (java/Dec.java): BigDecimal arithmetic carried to 40     *)
(* significant digits, i.e. the results are the mathematical reals up to   *)
(* 1E-38 relative.  Everything else in this specification - Planck's law,  *)
(* trapezoidal integrals, interpolation, correction formulas - is written  *)
(* in TLA+ on top of these few primitives.                                 *)
(*                                                                         *)
(* IEEE conventions for the special values: an operation on "nan" is "nan",*)
(* every comparison with "nan" is FALSE.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

NotOverridden == Assert(FALSE, "module Dec needs its Java override (Dec.class)")

Add(a, b)  == NotOverridden          \* a + b
Sub(a, b)  == NotOverridden          \* a - b
Mul(a, b)  == NotOverridden          \* a * b
Div(a, b)  == NotOverridden          \* a / b    (x/0 = nan or +-inf)
NegD(a)    == NotOverridden          \* -a
AbsD(a)    == NotOverridden          \* |a|
Lt(a, b)   == NotOverridden          \* a < b
Le(a, b)   == NotOverridden          \* a <= b
Eq(a, b)   == NotOverridden          \* a = b (numerically)
IsNaN(a)   == NotOverridden
IsFin(a)   == NotOverridden
ExpD(a)    == NotOverridden          \* e^a
LnD(a)     == NotOverridden          \* natural logarithm
PowD(a, b) == NotOverridden          \* a^b, b real, a >= 0 or b integer
CosD(a)    == NotOverridden          \* cosine, radians
SqrtD(a)   == NotOverridden
FloorD(a)  == NotOverridden          \* largest integer <= a, as a numeral
ToInt(a)   == NotOverridden          \* TLC integer for a (integral, small) numeral
FromInt(i) == NotOverridden          \* numeral for a TLC integer
DInt(a)    == NotOverridden          \* is the numeral an integer?
Lower(s)   == NotOverridden          \* lower-cased string
ReplaceS(s, a, b) == NotOverridden   \* s with every occurrence of a replaced by b
CatS(a, b) == NotOverridden          \* string concatenation
EndsS(s, t)   == NotOverridden       \* does s end with t?
StartsS(s, t) == NotOverridden
ContainsS(s, t) == NotOverridden
SumD(s)    == NotOverridden          \* sum of a sequence
PiD(a)     == NotOverridden          \* pi (the argument is ignored)

-----------------------------------------------------------------------------
(* Derived operators, in TLA+. *)
Gt(a, b) == Lt(b, a)
Ge(a, b) == Le(b, a)
MinD(a, b) == IF Le(a, b) THEN a ELSE b
MaxD(a, b) == IF Ge(a, b) THEN a ELSE b
Pi == PiD(0)
Deg2Rad(x) == Div(Mul(x, Pi), "180")
Sq(x) == Mul(x, x)
Between(lo, x, hi) == Le(lo, x) /\ Le(x, hi)

(* Equal up to a relative tolerance rt (of the larger magnitude) plus an   *)
(* absolute tolerance at; two NaNs agree, and equal infinities agree.      *)
Near(a, b, rt, at) ==
    \/ a = b
    \/ IsNaN(a) /\ IsNaN(b)
    \/ /\ IsFin(a) /\ IsFin(b)
       /\ Le(AbsD(Sub(a, b)), Add(at, Mul(rt, MaxD(AbsD(a), AbsD(b)))))

NearSeq(s, t, rt, at) ==
    /\ Len(s) = Len(t)
    /\ \A i \in 1..Len(s) : Near(s[i], t[i], rt, at)

(* Trapezoidal rule over a sampled function.  *)
Trapz(y, x) ==
    SumD([i \in 1..(Len(x) - 1) |->
            Div(Mul(Sub(x[i+1], x[i]), Add(y[i+1], y[i])), "2")])

MapD(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]
Map2D(Op(_, _), s, t) == [i \in 1..Len(s) |-> Op(s[i], t[i])]
MaxSeq(s) == LET m[i \in 1..Len(s)] == IF i = 1 THEN s[1] ELSE MaxD(m[i-1], s[i]) IN m[Len(s)]
MinSeq(s) == LET m[i \in 1..Len(s)] == IF i = 1 THEN s[1] ELSE MinD(m[i-1], s[i]) IN m[Len(s)]
=============================================================================
