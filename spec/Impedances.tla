------------------------------ MODULE Impedances ------------------------------
(***************************************************************************)
(* The impedance pipeline: windows and coefficients, prefilters, first stage    *)
(* on the remote channels, second stage, rejected times and errors.              *)
(* Runs are [start, rate, n, y], start in ticks of 1/192 s, y[c] the samples of   *)
(* channel c; cals[i][c] multiplies the coefficients of channel c of run i.        *)
(* A request q is [runs, cals, noval, elec, mag, rem, nper, on, od, win, wfs, rwfs,  *)
(*                 pf, rpf, opts, ...], rem = <<>> without remote, rwfs = <<>> and     *)
(*                 rpf.k = "same" when left to the main ones, noval the frequencies      *)
(*                 without calibration.                                                  *)
(* Prefilters are [k |-> "none"], [k |-> "line", t] rejecting the windows whose class of    *)
(* output is marked, [k |-> "fail"] and [k |-> "failn", n].                                  *)
(* Frequencies <<num, den>> are a half or a quarter of the sampling rates, so that             *)
(* coefficients are Gaussian integers over a known constant.                                   *)
(***************************************************************************)
EXTENDS MEstimation

F == INSTANCE Fourier

Ticks == 192
Big == 2000000000
Fits(a, b) == a = 0 \/ b = 0 \/ a <= Big \div b

-----------------------------------------------------------------------------
\* windows
Ratio(r, f) == LET g == GCD(f[1], r.rate * f[2])
               IN [n |-> r.n, p |-> IF g = 0 THEN 0 ELSE f[1] \div g, m |-> IF g = 0 THEN 1 ELSE (r.rate * f[2]) \div g]
Length(q, i, f) == F!WindowLength(Ratio(q.runs[i], f), q.nper)
Step_(q, i, f) == F!Shift(Length(q, i, f), q.on, q.od)
Count(q, i, f) == F!Count(q.runs[i].n, Length(q, i, f), Step_(q, i, f))

WindowsOK(q, f) ==
  /\ Len(q.runs) > 0
  /\ \A i \in DOMAIN q.runs : F!RunOK(Ratio(q.runs[i], f), q.nper, q.on, q.od)
  /\ \A i \in DOMAIN q.noval : q.noval[i] # f

\* whether coefficients are exact
Exact(q, f) == \A i \in DOMAIN q.runs : (4 * Ratio(q.runs[i], f).p) % Ratio(q.runs[i], f).m = 0

RECURSIVE Max(_)
Max(s) == IF Len(s) = 1 THEN s[1] ELSE LET m == Max(Tail(s)) IN IF Head(s) > m THEN Head(s) ELSE m

\* coefficients are integers over Constant: windows are at most 4 * nper long
Constant(q) == 2 * q.nper

Turns(k, x) == CASE k = 0 -> x [] k = 1 -> <<x[2], -x[1]>> [] k = 2 -> <<-x[1], -x[2]>> [] k = 3 -> <<-x[2], x[1]>>

Window(q, i, f, c, first) ==
  LET r == Ratio(q.runs[i], f)
      len == Length(q, i, f)
      taper(j) == IF q.win = <<>> THEN 1 ELSE q.win[j + 1]
      x(j) == Turns((j * ((4 * r.p) \div r.m)) % 4, <<taper(j) * q.runs[i].y[c][first + j + 1], 0>>)
      s == CSumTo([j \in 1..len |-> x(j - 1)], len)
  IN Scale((2 * Constant(q)) \div len, Mul(q.cals[i][c], s))

RECURSIVE LineFrom(_, _, _, _)
LineFrom(q, f, c, i) ==
  IF i > Len(q.runs) THEN <<>>
  ELSE [k \in 1..Count(q, i, f) |-> Window(q, i, f, c, (k - 1) * Step_(q, i, f))] \o LineFrom(q, f, c, i + 1)
Line(q, f, c) == LineFrom(q, f, c, 1)

\* centre times of windows, in ticks
RECURSIVE CentresFrom(_, _, _)
CentresFrom(q, f, i) ==
  IF i > Len(q.runs) THEN <<>>
  ELSE LET r == q.runs[i]
       IN [k \in 1..Count(q, i, f) |->
             r.start + ((2 * Step_(q, i, f) * (k - 1) + Length(q, i, f)) * Ticks) \div (2 * r.rate)]
          \o CentresFrom(q, f, i + 1)
Centres(q, f) == CentresFrom(q, f, 1)

-----------------------------------------------------------------------------
\* prefilters
PFails(pf, line) == pf.k = "fail" \/ (pf.k = "failn" /\ pf.n = Len(line))
PRejects(pf, line) == IF pf.k = "line" THEN {i - 1 : i \in {j \in DOMAIN line : pf.t[LineClass(line[j])] = 1}} ELSE {}

-----------------------------------------------------------------------------
\* one stage: outputs on inputs x[q] / d[q]
Greatest(line) == LET RECURSIVE G(_)
                      G(i) == IF i = 0 THEN 0
                              ELSE LET m == G(i - 1)
                                       v == IF Abs(line[i][1]) > Abs(line[i][2]) THEN Abs(line[i][1]) ELSE Abs(line[i][2])
                                   IN IF v > m THEN v ELSE m
                  IN G(Len(line))

RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1
              ELSE LET p == Product(Tail(s)) IN IF Fits(p, Head(s)) THEN p * Head(s) ELSE Big

\* whether exact arithmetic stays within 32 bits
Affordable(e, x, wfs, o) ==
  /\ Greatest(e) <= 2000 /\ \A c \in DOMAIN x : Greatest(x[c]) <= 2000
  /\ LET one == Ones(Len(e))
         en == [c \in 1..(Len(x) + 1) |-> IF c <= Len(x) THEN Energy(x[c], one) ELSE Energy(e, one)]
         m == Max(en)
         plain == \A s \in DOMAIN wfs : wfs[s].k = "none"
     IN IF plain THEN CASE Len(x) = 1 -> m <= Big \div 8 [] Len(x) = 2 -> m <= 22000 [] OTHER -> m <= 600
        ELSE Product([c \in DOMAIN en |-> en[c] + 2] \o [c \in DOMAIN x |-> en[c] + 2] \o [c \in 1..(2 * Len(x) + 3) |-> 2] \o <<IF o.td > 16 THEN o.td ELSE 16>>) < Big

RECURSIVE GCDs(_, _)
GCDs(g, num) == IF num = <<>> THEN g ELSE GCDs(GCD(GCD(g, Head(num)[1]), Head(num)[2]), Tail(num))
Lowest(z) == LET g == GCDs(z.den, z.num)
             IN IF z.den = 0 THEN z
                ELSE [den |-> z.den \div g, num |-> [c \in DOMAIN z.num |-> <<z.num[c][1] \div g, z.num[c][2] \div g>>]]

\* the first element that is not ok decides
RECURSIVE First(_, _)
First(r, p) == IF p > Len(r) THEN "ok" ELSE IF r[p].out = "ok" THEN First(r, p + 1) ELSE r[p].out

StageResult(out, z, rej, calls, fuzzy) == [out |-> out, z |-> z, rej |-> rej, calls |-> calls, fuzzy |-> fuzzy]

Stage(whow, whop, outs, x, d, wfs, o, pf, given) ==
  LET ivid == [p \in DOMAIN outs |-> given \cup PRejects(pf, outs[p])]
      cheap == \A p \in DOMAIN outs : Affordable(outs[p], x, wfs, o)
      r == [p \in DOMAIN outs |-> Estimate(outs[p], x, wfs, o, NoGuess, ivid[p])]
      pcalls == IF pf.k = "none" THEN {} ELSE {[who |-> whop, kind |-> "p", e |-> outs[p], b |-> x, d |-> d] : p \in DOMAIN outs}
      wcalls == {[who |-> whow, kind |-> "w", c |-> c, d |-> d] : c \in UNION {{r[p].calls[i] : i \in DOMAIN r[p].calls} : p \in DOMAIN outs}}
  IN IF \E p \in DOMAIN outs : PFails(pf, outs[p]) THEN StageResult("fail", <<>>, <<>>, pcalls, FALSE)
     ELSE IF ~cheap THEN StageResult("any", <<>>, <<>>, {}, TRUE)
     ELSE StageResult(First(r, 1), [p \in DOMAIN r |-> Lowest(r[p].z)], [p \in DOMAIN r |-> r[p].rej],
                      pcalls \cup wcalls, \E p \in DOMAIN r : r[p].fuzzy \/ r[p].out = "any")

-----------------------------------------------------------------------------
\* bounds on residuals, for coefficients over k
Scaled(wfs, k) == [s \in DOMAIN wfs |-> IF wfs[s].k = "clip" THEN [wfs[s] EXCEPT !.num = @ * k * k] ELSE wfs[s]]

\* one frequency
Entry(q, f) ==
  LET e  == [p \in DOMAIN q.elec |-> Line(q, f, q.elec[p])]
      b  == [p \in DOMAIN q.mag |-> Line(q, f, q.mag[p])]
      r  == [p \in DOMAIN q.rem |-> Line(q, f, q.rem[p])]
      remote == q.rem # <<>>
      one == [p \in DOMAIN q.mag |-> 1]
      wfs == Scaled(q.wfs, Constant(q))
      rwfs == Scaled(q.rwfs, Constant(q))
      s1 == Stage(IF q.rwfs = <<>> THEN "w" ELSE "r", IF q.rpf.k = "same" THEN "w" ELSE "r", b, r, [c \in DOMAIN r |-> 1], IF q.rwfs = <<>> THEN wfs ELSE rwfs, q.opts,
                  IF q.rpf.k = "same" THEN q.pf ELSE q.rpf, {})
      out1 == IF remote THEN UNION {s1.rej[p] : p \in DOMAIN s1.rej} ELSE {}
      x  == IF ~remote THEN b
            ELSE [p \in DOMAIN b |-> [i \in DOMAIN b[p] |->
                    CSumTo([c \in DOMAIN r |-> Mul(s1.z[p].num[c], r[c][i])], Len(r))]]
      d  == IF ~remote THEN one ELSE [p \in DOMAIN b |-> s1.z[p].den]
      small == ~remote \/ \A p \in DOMAIN s1.z : \A c \in DOMAIN r :
                 Abs(s1.z[p].num[c][1]) <= 1000 /\ Abs(s1.z[p].num[c][2]) <= 1000 /\ s1.z[p].den <= 1000
                 /\ Greatest(r[c]) <= 1000
      s2 == Stage("w", "w", e, x, d, wfs, q.opts, q.pf, out1)
  IN IF ~WindowsOK(q, f) THEN [out |-> "nowindow", calls |-> {}]
     ELSE IF ~Exact(q, f) THEN [out |-> "any", calls |-> {}]
     ELSE IF remote /\ s1.out # "ok" THEN [out |-> s1.out, calls |-> s1.calls, fuzzy |-> s1.fuzzy]
     ELSE IF ~small THEN [out |-> "any", calls |-> {}]
     ELSE [out |-> s2.out, calls |-> IF remote THEN s1.calls \cup s2.calls ELSE s2.calls,
           fuzzy |-> s2.fuzzy \/ (remote /\ s1.fuzzy),
           e |-> e, x |-> x, d |-> d, z |-> s2.z, rej |-> s2.rej, T |-> IF remote THEN s1.z ELSE <<>>]
=============================================================================
