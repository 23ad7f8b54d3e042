----------------------------- MODULE Calibrations -----------------------------
(***************************************************************************)
(* Calibration files and the functions read from them.  Frequencies and      *)
(* moduli are integers, phases multiples of 90 degrees, so that values are   *)
(* Gaussian rationals [re, im, den].                                          *)
(* A Metronix file is a sequence of lines                                    *)
(*   [k |-> "mark", on]  [k |-> "row", f, m, ph]  [k |-> "blank"]  [k |-> "text"]*)
(* A Phoenix file is a sequence of rows [f, lev, ch], ch holding <<re, im>>.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Refused == [ok |-> FALSE, re |-> 0, im |-> 0, den |-> 1]
Value(re, im, den) == [ok |-> TRUE, re |-> re, im |-> im, den |-> den]

MinOf(X) == CHOOSE x \in X : \A y \in X : x <= y

-----------------------------------------------------------------------------
\* the rows between the mark and the next blank line
Section(lines, on) ==
  LET marks == {i \in DOMAIN lines : lines[i].k = "mark" /\ lines[i].on = on}
  IN IF marks = {} THEN [ok |-> FALSE, t |-> <<>>]
     ELSE LET i    == MinOf(marks)
              ends == {j \in DOMAIN lines : j > i /\ lines[j].k = "blank"}
              e    == IF ends = {} THEN Len(lines) ELSE MinOf(ends) - 1
              t    == SubSeq(lines, i + 1, e)
          IN [ok |-> t # <<>> /\ \A j \in DOMAIN t : t[j].k = "row", t |-> t]

\* [re, im] of the unit at ph degrees
Unit(ph) == CASE ph % 360 = 0 -> <<1, 0>> [] ph % 360 = 90 -> <<0, 1>>
              [] ph % 360 = 180 -> <<-1, 0>> [] OTHER -> <<0, -1>>
RowValue(r) == <<r.f * r.m * Unit(r.ph)[1], r.f * r.m * Unit(r.ph)[2]>>

\* linear interpolation in points [f, v]; refused outside them
Interp(pts, f) ==
  LET at == {i \in DOMAIN pts : pts[i].f = f}
      lo == {i \in DOMAIN pts : pts[i].f < f}
      hi == {i \in DOMAIN pts : pts[i].f > f}
  IN IF at # {} THEN LET i == MinOf(at) IN Value(pts[i].v[1], pts[i].v[2], 1)
     ELSE IF lo = {} \/ hi = {} THEN Refused
     ELSE LET a == pts[CHOOSE i \in lo : \A j \in lo : pts[j].f <= pts[i].f]
              b == pts[CHOOSE i \in hi : \A j \in hi : pts[j].f >= pts[i].f]
          IN Value(a.v[1] * (b.f - f) + b.v[1] * (f - a.f),
                   a.v[2] * (b.f - f) + b.v[2] * (f - a.f), b.f - a.f)

\* chopper state for a sampling rate
Chopper(rate, limit) == rate <= limit

\* a Metronix calibration: alpha = 0 when the sensor version is unknown
MetronixOK(lines, on, alpha) == alpha > 0 /\ Section(lines, on).ok

\* its value at f, h being the length of (f, alpha)
Metronix(lines, on, alpha, f, h) ==
  LET t == Section(lines, on).t
      pts == [i \in DOMAIN t |-> [f |-> t[i].f, v |-> RowValue(t[i])]]
  IN IF f < t[1].f /\ on THEN Value(f * t[1].m * f, f * t[1].m * alpha, h)
     ELSE Interp(pts, f)

-----------------------------------------------------------------------------
PhoenixRows(rows, lev) == SelectSeq(rows, LAMBDA r : r.lev = lev)
PhoenixOK(rows, lev) == PhoenixRows(rows, lev) # <<>>
Phoenix(rows, lev, c, f) ==
  LET t == PhoenixRows(rows, lev)
  IN Interp([i \in DOMAIN t |-> [f |-> t[i].f, v |-> t[i].ch[c]]], f)
=============================================================================
