------------------------------- MODULE MC_Scale --------------------------------
(* Two frequencies are taken to a scale and back, any number of times, by the   *)
(* definition that is asked for, or the default. Scales are of the form         *)
(* a f / (1 + f) - b, as that of Traunmuller is (f in units of 1960 Hz), and    *)
(* numbers are fractions.                                                       *)
EXTENDS Integers, Sequences
CONSTANTS Top, Turns, Variant
VARIABLES f, g, x, y, on, turn
vars == <<f, g, x, y, on, turn>>
Const == [traunmuller |-> <<2681, 53>>, other |-> <<1300, 7>>]
Names == DOMAIN Const
Default == "traunmuller"
Asked == Names \cup {"none"}
Real(m) == IF m = "none" THEN Default ELSE m
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(a) == IF a < 0 THEN -a ELSE a
Frac(p, q) == LET s == IF q < 0 THEN -1 ELSE 1 d == Gcd(Abs(p), Abs(q)) IN
              <<(s * p) \div d, (s * q) \div d>>
To(m, v) == LET c == Const[m] IN
  Frac(c[1] * v[1] - c[2] * (v[1] + v[2]), 100 * (v[1] + v[2]))
\* f = (b + v) / (a - b - v)
Back(m, v) == LET c == Const[m] k == IF Variant = "const" THEN 0 ELSE c[2] IN
  Frac(c[2] * v[2] + 100 * v[1], (c[1] - k) * v[2] - 100 * v[1])
Init == /\ f \in 0..Top /\ g \in 0..Top /\ x = <<f, 1>> /\ y = <<g, 1>>
        /\ on = "hertz" /\ turn = 0
Go == /\ on = "hertz" /\ turn < Turns
      /\ \E m \in Asked : /\ on' = m
           /\ x' = To(Real(m), x) /\ y' = To(Real(m), y)
      /\ UNCHANGED <<f, g, turn>>
Return == /\ on # "hertz" /\ on' = "hertz" /\ turn' = turn + 1
          /\ LET m == IF Variant = "other" THEN Default ELSE Real(on) IN
             x' = Back(m, x) /\ y' = Back(m, y)
          /\ UNCHANGED <<f, g>>
Next == Go \/ Return
Spec == Init /\ [][Next]_vars
Less(a, b) == a[1] * b[2] < b[1] * a[2]
Inverse == on = "hertz" => x = <<f, 1>> /\ y = <<g, 1>>
Order == (f < g) <=> Less(x, y)
================================================================================
