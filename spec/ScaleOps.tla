------------------------------- MODULE ScaleOps --------------------------------
(* Psychoacoustic scales as they were published.                                *)
EXTENDS Integers, Sequences
Abs(a) == IF a < 0 THEN -a ELSE a
\* edges of the critical bands 1, 2, ... (Zwicker), in hertz
Critical == <<100, 200, 300, 400, 510, 630, 770, 920, 1080, 1270, 1480, 1720,
              2000, 2320, 2700, 3150, 3700, 4400, 5300, 6400, 7700, 9500,
              12000, 15500>>
\* A-weighting (IEC 61672-1, table 3) at 10, 12.5, ... 20000 Hz, tenths of dB
AWeight == <<-704, -634, -567, -505, -447, -394, -346, -302, -262, -225, -191,
             -161, -134, -109, -86, -66, -48, -32, -19, -8, 0, 6, 10, 12, 13,
             12, 10, 5, -1, -11, -25, -43, -66, -93>>
\* Names of the scales. The points g = 0, 1, ... at which they are known:
\*  zwicker: the edges of critical bands; A: thirds of octave from 10 Hz
\*  erb, erb linear, traunmuller: 100 g Hz
\*  fant: 1000 (2^(g/4) - 1) Hz     mel: 700 (10^(g/12) - 1) Hz
\*  wang: 600 sinh(g ln 2 / 4) Hz   cams linear: (10^(g/12) - 1) / 0.00437 Hz
\*  cams: where (f + 312) / (f + 14675) is 2^(-g/4)
Unit(s) == CASE s = "zwicker" -> 100 [] s = "A" -> 100
             [] s = "erb" -> 10000 [] s = "erb linear" -> 10000
             [] s = "traunmuller" -> 1000 [] s = "fant" -> 100
             [] s = "mel" -> 1200 [] s = "wang" -> 100000
             [] s = "cams" -> 100000 [] s = "cams linear" -> 1200
\* v, a value on scale s times Unit(s), is right at point g
Right(s, g, v) ==
  CASE s = "zwicker" -> Abs(v - 100 * (g + 1)) <= 20
    [] s = "A" -> Abs(v - 10 * AWeight[g + 1]) <= 6
    [] s = "erb" -> Abs(v - (623 * g * g + 9339 * g + 285200)) <= 1
    [] s = "erb linear" -> Abs(v - (107939 * g + 247000)) <= 1
    [] s = "traunmuller" ->
         LET f == 100 * g IN
         Abs(v * (1960 + f) - (26810 * f - 530 * (1960 + f))) <= 1960 + f
    [] s = "fant" -> Abs(v - 25000 * g) <= 1
    [] s = "mel" -> Abs(v - 259500 * g) <= 1
    [] s = "wang" -> Abs(v - 103972 * g) <= g + 1
    [] s = "cams" -> Abs(v - (4300000 - 193561 * g)) <= g + 1
    [] s = "cams linear" -> Abs(v - 2140 * g) <= 1
\* kinds of scale, the ways of each (the default first), those that come back
Ways(kind) == CASE kind = "bark" -> <<"traunmuller", "zwicker", "wang">>
                [] kind = "mel" -> <<"mel", "fant">>
                [] kind = "cams" -> <<"cams", "cams linear">>
                [] kind = "erb" -> <<"erb", "erb linear">>
                [] kind = "A" -> <<"A">>
Returns(s) == s \in {"traunmuller", "wang", "mel", "fant", "cams", "cams linear"}
================================================================================
