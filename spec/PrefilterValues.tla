--------------------------- MODULE PrefilterValues ---------------------------
(***************************************************************************)
(* Values of a prefilter on the windows of a signal set.                      *)
(* Requests q are those of Impedances.  The prefilter of the experiments is     *)
(*   value(e, b)[i] = Weigh(e[i]) + sum over c of (c + 4) * Weigh(b[i][c])       *)
(* so that it depends on every coefficient it is given.                           *)
(* When q.tone holds, every run of every channel is a pure tone at a quarter of    *)
(* its sampling rate, whose coefficients do not depend on the (unit mean) taper:   *)
(* this is how default windowing is specified.                                      *)
(***************************************************************************)
EXTENDS Impedances

Weigh(z) == z[1] + 3 * z[2]

\* coefficient of a tone on any window starting at sample first (from 0)
ToneAt(q, i, f, c, first) ==
  LET r == Ratio(q.runs[i], f)
      y(k) == q.runs[i].y[c][k + 1]
      z == IF 2 * r.p = r.m THEN <<2 * y(first), 0>> ELSE <<y(first), -y(first + 1)>>
  IN Mul(q.cals[i][c], z)

RECURSIVE ToneFrom(_, _, _, _)
ToneFrom(q, f, c, i) ==
  IF i > Len(q.runs) THEN <<>>
  ELSE [k \in 1..Count(q, i, f) |-> ToneAt(q, i, f, c, (k - 1) * Step_(q, i, f))] \o ToneFrom(q, f, c, i + 1)

Coefficients(q, f, c) == IF q.tone THEN ToneFrom(q, f, c, 1) ELSE Line(q, f, c)

RECURSIVE AddUp(_, _)
AddUp(G(_), k) == IF k = 0 THEN 0 ELSE G(k) + AddUp(G, k - 1)

ValuesAt(q, f) ==
  LET b == [c \in DOMAIN q.mag |-> Coefficients(q, f, q.mag[c])]
      sum(i) == LET w(c) == (c + 4) * Weigh(b[c][i]) IN AddUp(w, Len(b))
  IN [p \in DOMAIN q.elec |->
       LET e == Coefficients(q, f, q.elec[p]) IN [i \in DOMAIN e |-> Weigh(e[i]) + sum(i)]]

-----------------------------------------------------------------------------
\* restriction to <<lo, hi>>, in ticks
CeilDiv(a, b) == -((-a) \div b)
FirstIn(r, lo) == LET k == CeilDiv((lo - r.start) * r.rate, Ticks) IN IF k < 0 THEN 0 ELSE k
LastIn(r, hi) == LET k == ((hi - r.start) * r.rate) \div Ticks IN IF k > r.n - 1 THEN r.n - 1 ELSE k

CutRun(r, iv) ==
  LET a == FirstIn(r, iv[1])
      z == LastIn(r, iv[2])
  IN [start |-> r.start + (a * Ticks) \div r.rate, rate |-> r.rate, n |-> z - a + 1,
      y |-> [c \in DOMAIN r.y |-> SubSeq(r.y[c], a + 1, z + 1)]]

RunsIn(q, iv) == {i \in DOMAIN q.runs : LastIn(q.runs[i], iv[2]) - FirstIn(q.runs[i], iv[1]) >= 1}
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortedSeq(S \ {m})
Restrict(q, iv) ==
  LET k == SortedSeq(RunsIn(q, iv))
  IN [q EXCEPT !.runs = [j \in DOMAIN k |-> CutRun(q.runs[k[j]], iv)], !.cals = [j \in DOMAIN k |-> q.cals[k[j]]]]

RECURSIVE Power(_)
Power(n) == IF n = 0 THEN 1 ELSE 2 * Power(n - 1)
=============================================================================
