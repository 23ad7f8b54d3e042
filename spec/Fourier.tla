------------------------------- MODULE Fourier -------------------------------
(***************************************************************************)
(* Fourier coefficients on sliding windows.                                   *)
(* A run is [n |-> samples, p, m |-> freq = p/m of its sampling rate,           *)
(*   data |-> parameters of its channels, cals |-> their calibrations <<re, im>>,*)
(*   bad |-> whether some calibration has no value].                            *)
(* Phases are multiples of 1/m turn, m dividing 240; trigonometric values are    *)
(* integers in units of 10^-5, so coefficients are known up to Slack.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Unity == 100000
Quarter == <<100000, 99966, 99863, 99692, 99452, 99144, 98769, 98325, 97815, 97237,
   96593, 95882, 95106, 94264, 93358, 92388, 91355, 90259, 89101, 87882,
   86603, 85264, 83867, 82413, 80902, 79335, 77715, 76041, 74314, 72537,
   70711, 68835, 66913, 64945, 62932, 60876, 58779, 56641, 54464, 52250,
   50000, 47716, 45399, 43051, 40674, 38268, 35837, 33381, 30902, 28402,
   25882, 23345, 20791, 18224, 15643, 13053, 10453, 7846, 5234, 2618, 0>>

\* cosine of j/240 turn
RECURSIVE Cos(_)
Cos(j) == LET k == j % 240
          IN IF k <= 60 THEN Quarter[k + 1]
             ELSE IF k <= 120 THEN -Quarter[121 - k]
             ELSE Cos(240 - k)
Sin(j) == Cos(j - 60)

-----------------------------------------------------------------------------
\* windows of a run: nper periods long, overlapping by on/od
WindowLength(r, nper) == (nper * r.m + r.p - 1) \div r.p
Shift(len, on, od) == (len * (od - on)) \div od
Count(n, len, shift) == (n - len) \div shift + 1

RunOK(r, nper, on, od) ==
  /\ r.p > 0 /\ 2 * r.p <= r.m
  /\ on >= 0 /\ on <= od
  /\ LET len == WindowLength(r, nper)
         s   == Shift(len, on, od)
     IN s > 0 /\ r.n >= len + s

\* first sample (from 0) of each window
Offsets(n, len, shift) == [i \in 1..Count(n, len, shift) |-> (i - 1) * shift]

-----------------------------------------------------------------------------
\* samples and tapers of the experiments
Sample(d, j) == ((d[1] * j * j + d[2] * j + d[3]) % 19) - 9
Taper(w, j) == IF w = <<>> THEN 1 ELSE ((w[1] * j + w[2]) % w[3]) + 1

RECURSIVE Sum(_, _, _)
Sum(F(_), a, b) == IF a > b THEN 0 ELSE F(a) + Sum(F, a + 1, b)

\* sum of taper * sample * exp(-2i pi j p/m) over a window, in 1/Unity: <<re, im>>
Projection(r, d, w, first, len) ==
  LET k == 240 \div r.m
      x(j) == Taper(w, j) * Sample(d, first + j)
      re(j) == x(j) * Cos((j * r.p * k) % 240)
      im(j) == -(x(j) * Sin((j * r.p * k) % 240))
  IN <<Sum(re, 0, len - 1), Sum(im, 0, len - 1)>>

Abs(x) == IF x < 0 THEN -x ELSE x
Energy(d, w, first, len) == LET a(j) == Abs(Taper(w, j) * Sample(d, first + j)) IN Sum(a, 0, len - 1)

\* c * calibration = projection, c = <<re, im>> in 1/Unity being known up to 1/Unity
Agrees(c, cal, r, d, w, first, len) ==
  LET want == Projection(r, d, w, first, len)
      slack == Energy(d, w, first, len) + Abs(cal[1]) + Abs(cal[2]) + 2
  IN /\ Abs(c[1] * cal[1] - c[2] * cal[2] - want[1]) <= slack
     /\ Abs(c[1] * cal[2] + c[2] * cal[1] - want[2]) <= slack
=============================================================================
