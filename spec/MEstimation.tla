----------------------------- MODULE MEstimation -----------------------------
(***************************************************************************)
(* Chained iteratively reweighted least squares.                              *)
(* A weighting wf is one of                                                    *)
(*   [k |-> "none"]              plain least squares                            *)
(*   [k |-> "table", t]          weights t[iteration][class of the observation],  *)
(*                               in halves, 0 or -1 (negligible) rejecting it, -2    *)
(*                               being tiny, and rejecting it if o.eps = 1;           *)
(*                               the last row goes on; an empty row: no weights    *)
(*   [k |-> "clip", num, den]    rejects squared residuals above num/den          *)
(*   [k |-> "fail", at]          fails at an iteration                           *)
(*   [k |-> "line", t]           as "table", the class depending on outputs only   *)
(*   [k |-> "failn", n]          fails when given n observations                   *)
(* Options are [tn, td |-> tolerance, maxit, eps].                               *)
(* Outcomes: "ok", "nonconv", "fail" and "any" when exact arithmetic does not     *)
(* tell what floating point arithmetic may do (singular, ties, exact fits).       *)
(***************************************************************************)
EXTENDS Regression

Classes == 5
Class(e, b, i) ==
  LET v == e[i][1] + 3 * e[i][2] + 5 * b[1][i][1] + 7 * b[1][i][2]
           + (IF Len(b) > 1 THEN 2 * b[2][i][1] + 11 * b[2][i][2] ELSE 0)
  IN (v % Classes) + 1

LineClass(x) == ((x[1] + 3 * x[2]) % Classes) + 1

Row(wf, it) == wf.t[IF it + 1 <= Len(wf.t) THEN it + 1 ELSE Len(wf.t)]

\* weights given at iteration it, in halves
Given(wf, it, e, b, res, den) ==
  CASE wf.k = "table" -> [i \in DOMAIN e |->
                           IF Row(wf, it) = <<>> THEN 2
                           ELSE LET x == Row(wf, it)[Class(e, b, i)] IN IF x < 0 THEN 0 ELSE x]
    [] wf.k = "line"  -> [i \in DOMAIN e |->
                           IF Row(wf, it) = <<>> THEN 2
                           ELSE LET x == Row(wf, it)[LineClass(e[i])] IN IF x < 0 THEN 0 ELSE x]
    [] wf.k \in {"fail", "failn"} -> [i \in DOMAIN e |-> 2]
    [] wf.k = "clip"  -> [i \in DOMAIN e |->
                           IF Abs2(res[i]) * wf.den > wf.num * den * den THEN 0 ELSE 2]

\* whether some weights are negligible instead of zero
Faint(wf, it, e, b) ==
  \/ wf.k = "table" /\ Row(wf, it) # <<>> /\ \E i \in DOMAIN e : Row(wf, it)[Class(e, b, i)] < 0
  \/ wf.k = "line" /\ Row(wf, it) # <<>> /\ \E i \in DOMAIN e : Row(wf, it)[LineClass(e[i])] < 0

\* weights that are not zero but count for nothing
Tiny(wf, it, e, b, o) ==
  IF o.eps = 1 \/ wf.k \notin {"table", "line"} \/ Row(wf, it) = <<>> THEN {}
  ELSE {i \in DOMAIN e : Row(wf, it)[IF wf.k = "table" THEN Class(e, b, i) ELSE LineClass(e[i])] = -2}
AnyTiny(wf, o) == o.eps # 1 /\ wf.k \in {"table", "line"}
                  /\ \E r \in DOMAIN wf.t : \E c \in DOMAIN wf.t[r] : wf.t[r][c] = -2

Breaks(wf, it, n) == (wf.k = "fail" /\ it >= wf.at) \/ (wf.k = "failn" /\ n = wf.n)

Rational(n, d) == LET g == GCD(n, d) IN IF g = 0 THEN <<n, d>> ELSE <<n \div g, d \div g>>

Outcome(out, z, rej, calls, fuzzy) == [out |-> out, z |-> z, rej |-> rej, calls |-> calls, fuzzy |-> fuzzy]

\* one iteration and the following ones; rej: rejected in this step (0-based),
\* prev: previous weighted residual energy, <<>> at first
RECURSIVE Iterate(_, _, _, _, _, _, _, _, _)
Iterate(e, b, wf, o, it, z, rej, prev, calls) ==
  IF it = o.maxit THEN Outcome("nonconv", z, rej, calls, FALSE)
  ELSE
  LET res   == ScaledResidual(e, b, z)
      log   == Append(calls, [it |-> it, e |-> e, b |-> b, res |-> res, den |-> z.den, rej |-> rej])
  IN IF Breaks(wf, it, Len(e)) THEN Outcome("fail", z, rej, log, FALSE)
  ELSE
  LET w0    == Given(wf, it, e, b, res, z.den)
      w     == [i \in DOMAIN e |-> IF i - 1 \in rej THEN 0 ELSE w0[i]]
      rej2  == rej \cup {i - 1 : i \in {j \in DOMAIN e : w[j] = 0} \ Tiny(wf, it, e, b, o)}
      z2    == LSE(e, b, w)
      en    == ResidualEnergy(e, b, w)
      cur   == Rational(en.num, en.den)
      gap   == Abs(cur[1] * prev[2] - prev[1] * cur[2]) * o.td
      lim   == o.tn * prev[1] * cur[2]
  IN IF Cardinality(rej2) = Len(e)
     THEN Outcome(IF Faint(wf, it, e, b) THEN "any" ELSE "fail", z, rej2, log, FALSE)
     ELSE IF z2.den = 0 THEN Outcome("any", z, rej2, log, TRUE)
     ELSE IF prev = <<>> THEN Iterate(e, b, wf, o, it + 1, z2, rej2, cur, log)
     ELSE IF prev[1] = 0 /\ cur[1] = 0
          THEN IF ~AnyTiny(wf, o) /\ wf.k \in {"table", "line"} /\ it >= Len(wf.t) /\ it + 3 <= o.maxit THEN Outcome("ok", z2, rej2, log, TRUE)
               ELSE Outcome("any", z2, rej2, log, TRUE)
     ELSE IF gap = lim THEN Outcome("any", z2, rej2, log, TRUE)
     ELSE IF gap < lim THEN Outcome("ok", z2, rej2, log, FALSE)
     ELSE Iterate(e, b, wf, o, it + 1, z2, rej2, cur, log)

\* one step, some observations being out already
Step(e, b, wf, o, z, rej) ==
  IF wf.k = "none"
  THEN LET z2 == LSE(e, b, [i \in DOMAIN e |-> IF i - 1 \in rej THEN 0 ELSE 1])
       IN Outcome(IF z2.den = 0 THEN "any" ELSE "ok", z2, rej, <<>>, FALSE)
  ELSE IF z.den = 0 THEN Outcome("any", z, rej, <<>>, TRUE)      \* nothing to start from
  ELSE Iterate(e, b, wf, o, 0, z, rej, <<>>, <<>>)

\* all steps on one output; out: rejected so far, in original numbering
RECURSIVE Chain(_, _, _, _, _, _, _, _)
Chain(e, b, wfs, o, z, out, calls, fuzzy) ==
  IF wfs = <<>> THEN Outcome("ok", z, out, calls, fuzzy)
  ELSE
  LET e1 == Without(e, out)
      b1 == [q \in DOMAIN b |-> Without(b[q], out)]
      num == Numbers(Len(e), out)
  IN IF Len(e1) = 0 THEN Outcome("fail", z, out, calls, fuzzy)
     ELSE LET s == Step(e1, b1, Head(wfs), o, z, {})
              out2 == out \cup {num[i + 1] : i \in s.rej}
          IN IF s.out = "ok" THEN Chain(e, b, Tail(wfs), o, s.z, out2, calls \o s.calls, fuzzy \/ s.fuzzy)
             ELSE Outcome(s.out, s.z, out2, calls \o s.calls, fuzzy \/ s.fuzzy)

NoGuess == [den |-> 0, num |-> <<>>]

\* one output
Estimate(e, b, wfs, o, z0, given) == Chain(e, b, wfs, o, z0, given, <<>>, FALSE)

-----------------------------------------------------------------------------
\* the real formulation: real and imaginary parts are two observations, and so are
\* the parts of the estimates two unknowns
Halves(line) == [k \in 1..(2 * Len(line)) |-> <<line[(k + 1) \div 2][2 - (k % 2)], 0>>]
\* what multiplies the imaginary part of the estimate
Turned(line) == [i \in DOMAIN line |-> <<-line[i][2], line[i][1]>>]
RealInputs(b) == [k \in 1..(2 * Len(b)) |-> IF k % 2 = 1 THEN Halves(b[(k + 1) \div 2]) ELSE Halves(Turned(b[k \div 2]))]
BothHalves(given) == UNION {{2 * i, 2 * i + 1} : i \in given}

\* back to complex numbers; a rejected half is a rejected observation
FromReal(r, Q) ==
  [r EXCEPT !.rej = {i \div 2 : i \in r.rej},
            !.z = [den |-> r.z.den, num |-> [q \in 1..Q |-> <<r.z.num[2 * q - 1][1], r.z.num[2 * q][1]>>]]]

\* with two inputs or more, only plain least squares is specified: both formulations then agree
EstimateReal(e, b, wfs, o, given) ==
  IF Len(b) > 1 THEN Estimate(e, b, wfs, o, NoGuess, given)
  ELSE LET r == Estimate(Halves(e), RealInputs(b), wfs, o, NoGuess, BothHalves(given))
       IN IF r.out = "ok" THEN FromReal(r, Len(b)) ELSE r
=============================================================================
