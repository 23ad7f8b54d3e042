-------------------------------- MODULE Tones --------------------------------
(***************************************************************************)
(* What Slepian tapers are for: telling tones apart.                           *)
(* The signal of a channel is a sum of tones <<j, a, b>> of complex amplitude     *)
(* a + ib at j/240 of the sampling rate.  Seen through a taper whose main lobe     *)
(* ends at tau bins, a tone at the analysed frequency gives its own amplitude, and  *)
(* tones at least tau bins away, their mirror images included, give next to nothing. *)
(***************************************************************************)
EXTENDS Fourier

Turn == 240
Fold(d) == LET k == d % Turn IN IF k <= Turn - k THEN k ELSE Turn - k
Analysed(r) == (r.p * Turn) \div r.m

\* tau in halves of a bin
Apart(d, len, tau2) == 2 * Fold(d) * len >= Turn * tau2
Separated(r, tones, len, tau2) ==
  LET j == Analysed(r)
  IN \A i \in DOMAIN tones :
       IF tones[i][1] = j THEN Apart(2 * j, len, tau2)
       ELSE Apart(tones[i][1] - j, len, tau2) /\ Apart(tones[i][1] + j, len, tau2)

\* what is left of a unit tone outside of the main lobe, and rounding, in 1/Unity
Leak(tau2) == CASE tau2 = 5 -> 390 [] tau2 = 6 -> 90 [] tau2 = 7 -> 22 [] tau2 = 8 -> 8 [] OTHER -> 4

\* coefficient of the window starting at sample o
RECURSIVE SumTones(_, _, _, _)
SumTones(tones, j, o, i) ==
  IF i = 0 THEN <<0, 0>>
  ELSE LET rest == SumTones(tones, j, o, i - 1)
           t == tones[i]
           k == ((j % Turn) * (o % Turn)) % Turn
       IN IF t[1] # j THEN rest
          ELSE <<rest[1] + t[2] * Cos(k) - t[3] * Sin(k), rest[2] + t[2] * Sin(k) + t[3] * Cos(k)>>
Heard(r, tones, o) == SumTones(tones, Analysed(r), o, Len(tones))

RECURSIVE Loudness(_, _)
Loudness(tones, i) == IF i = 0 THEN 0 ELSE Loudness(tones, i - 1) + Abs(tones[i][2]) + Abs(tones[i][3])

\* c * cal is the coefficient, c = <<re, im>> in 1/Unity
ToneOK(c, cal, r, tones, o, tau2) ==
  LET want == Heard(r, tones, o)
      slack == Leak(tau2) * Loudness(tones, Len(tones)) + Abs(cal[1]) + Abs(cal[2])
  IN /\ Abs(c[1] * cal[1] - c[2] * cal[2] - want[1]) <= slack
     /\ Abs(c[1] * cal[2] + c[2] * cal[1] - want[2]) <= slack
=============================================================================
