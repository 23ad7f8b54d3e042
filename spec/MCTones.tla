------------------------------- MODULE MCTones -------------------------------
(* Laws of Tones: what is heard, sample by sample.                             *)
EXTENDS Tones, TLC

CONSTANTS Ps, Ms, Js, Amps, MaxTones, Lens, Tau2s

VARIABLES r, tones

Init == tones = <<>> /\ r \in [p : Ps, m : Ms]
Next == /\ Len(tones) < MaxTones
        /\ tones' \in {Append(tones, <<j, a, b>>) : j \in Js, a \in Amps, b \in Amps}
        /\ UNCHANGED r
Spec == Init /\ [][Next]_<<r, tones>>

Valid == 2 * r.p <= r.m /\ (r.p * Turn) % r.m = 0
Plus(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Rotate(z, k) == <<(z[1] * (Cos(k) \div 100) - z[2] * (Sin(k) \div 100)) \div 1000, (z[1] * (Sin(k) \div 100) + z[2] * (Cos(k) \div 100)) \div 1000>>

\* at the first sample, the sum of the amplitudes at the analysed frequency
Amplitude(k) == LET RECURSIVE S(_)
                    S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + (IF tones[i][1] = Analysed(r) THEN tones[i][k] ELSE 0)
                IN S(Len(tones))
Starts == Valid => Heard(r, tones, 0) = <<Unity * Amplitude(2), Unity * Amplitude(3)>>
\* tones add up
Additive == (Valid /\ tones # <<>>) =>
  \A o \in {0, 1, 7} : Heard(r, tones, o) = Plus(Heard(r, SubSeq(tones, 1, Len(tones) - 1), o), Heard(r, <<tones[Len(tones)]>>, o))
\* periodic in the start of the window, with the period of the frequency
Periodic == Valid => \A o \in {0, 3, 11} : Heard(r, tones, o) = Heard(r, tones, o + r.m)
\* a later window is turned by the delay
Turned == Valid => \A o \in 0..3 :
  LET RECURSIVE L(_)
      L(k) == Heard(r, tones, k)
      z == L(o)
      k == Analysed(r) % Turn
      x == L(o + 1)
  IN Abs(x[1] - Rotate(z, k)[1]) <= 300 * (Loudness(tones, Len(tones)) + 1)
     /\ Abs(x[2] - Rotate(z, k)[2]) <= 300 * (Loudness(tones, Len(tones)) + 1)
\* longer windows separate more, wider lobes less
Separation == Valid => \A len \in Lens : \A t \in Tau2s :
  Separated(r, tones, len, t) =>
    /\ \A len2 \in Lens : len2 >= len => Separated(r, tones, len2, t)
    /\ \A t2 \in Tau2s : t2 <= t => Separated(r, tones, len, t2)
    /\ Separated(r, [i \in DOMAIN tones |-> <<Turn - tones[i][1], tones[i][2], tones[i][3]>>], len, t)
         \/ \E i \in DOMAIN tones : tones[i][1] = Analysed(r) \/ Turn - tones[i][1] = Analysed(r)
    \* nothing nearer than tau bins, where the bins of the window are 1/len of the sampling rate
    /\ \A i \in DOMAIN tones : tones[i][1] # Analysed(r) =>
         2 * len * Fold(tones[i][1] - Analysed(r)) >= Turn * t
=============================================================================
