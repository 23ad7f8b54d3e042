------------------------------ MODULE MCFourier ------------------------------
(***************************************************************************)
(* Laws of the sliding windows and of the trigonometric table, exhaustively    *)
(* over small sizes, frequencies and overlaps.                                 *)
(***************************************************************************)
EXTENDS Fourier, TLC

CONSTANTS MaxN, MaxM, MaxPer

Overlaps == {<<0, 1>>, <<1, 2>>, <<1, 4>>, <<71, 100>>, <<9, 10>>}

VARIABLES r, nper, ov

Init == /\ r \in {x \in [n : 1..MaxN, p : 1..3, m : 2..MaxM] : TRUE}
        /\ nper \in 1..MaxPer
        /\ ov \in Overlaps

Next == UNCHANGED <<r, nper, ov>>
Spec == Init /\ [][Next]_<<r, nper, ov>>

len == WindowLength(r, nper)
s == Shift(len, ov[1], ov[2])
off == Offsets(r.n, len, s)

Windows ==
  /\ len * r.p >= nper * r.m /\ (len - 1) * r.p < nper * r.m          \* the announced periods, no more
  /\ RunOK(r, nper, ov[1], ov[2]) =>
       /\ Len(off) >= 2
       /\ \A i \in DOMAIN off : off[i] >= 0 /\ off[i] + len <= r.n      \* inside the run
       /\ off[Len(off)] + s + len > r.n                                \* as many as fit
       /\ \A i \in 1..(Len(off) - 1) :                                  \* overlap as announced
            LET common == off[i] + len - off[i + 1]
            IN common * ov[2] >= ov[1] * len /\ (common - 1) * ov[2] < ov[1] * len
  /\ (~RunOK(r, nper, ov[1], ov[2]) /\ 2 * r.p <= r.m /\ s > 0) => r.n < len + s

ASSUME \A j \in 0..239 :
  /\ Abs(Cos(j) * (Cos(j) \div 10) + Sin(j) * (Sin(j) \div 10) - 1000000000) < 2 * 10^6
  /\ Cos(j) = Cos(240 - j) /\ Sin(j) = -Sin(240 - j) /\ Cos(j + 120) = -Cos(j)
=============================================================================
