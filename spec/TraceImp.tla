------------------------------ MODULE TraceImp ------------------------------
(***************************************************************************)
(* Events: one call of impedance(), e.q being the request, e.entries what it     *)
(* returned for each frequency of e.freqs and e.calls what the prefilters and      *)
(* weightings were given.  Coefficients observed are multiplied by Constant(q).      *)
(***************************************************************************)
EXTENDS Impedances, TraceBase, Decimal

Unit == 10000
Near(x, num, den) == Abs(x * den - Unit * num) <= 2 * Abs(den)
TooBig(num, den) == Abs(den) > 60000 \/ Abs(num) > 200000 \/ Abs(num) > 300 * Abs(den)
NearC(z, num, den) == \A k \in 1..2 : TooBig(num[k], den) \/ Near(z[k], num[k], den)

\* what matters of the requested weights
RawStages(q) == {q.wfs[i].k : i \in DOMAIN q.wfs} \cup {q.rwfs[i].k : i \in DOMAIN q.rwfs}

Entries(e) == [i \in DOMAIN e.freqs |-> Entry(e.q, e.freqs[i])]

-----------------------------------------------------------------------------
\* what user functions were given
SameLines(x, b, d) == Len(x) = Len(b) /\ \A c \in DOMAIN b : Len(x[c]) = Len(b[c]) /\
                        \A i \in DOMAIN b[c] : NearC(x[c][i], b[c][i], d[c])
SameArgs(c, s) ==
  /\ c.who = s.who /\ c.kind = s.kind
  /\ IF c.kind = "p" THEN c.e = s.e /\ SameLines(c.x, s.b, s.d)
     ELSE /\ c.it = s.c.it /\ c.e = s.c.e /\ {c.rej[i] : i \in DOMAIN c.rej} = s.c.rej
          /\ SameLines(c.x, s.c.b, s.d)
          /\ Len(c.res) = Len(s.c.res)
          /\ \A i \in DOMAIN c.res : (i - 1) \in s.c.rej \/ NearC(c.res[i], s.c.res[i], s.c.den)

CallsJudge(e, r) ==
  LET out == {r[i].out : i \in DOMAIN r}
      want == UNION {r[i].calls : i \in DOMAIN r}
      certain == \A i \in DOMAIN r : r[i].out # "any" /\ (r[i].out # "nowindow" => ~r[i].fuzzy)
  IN IF e.realpb \/ ~certain THEN {}
     ELSE (IF \E i \in DOMAIN e.calls : ~\E s \in want : SameArgs(e.calls[i], s) THEN {<<"C14", "wrong calls">>} ELSE {})
          \cup (IF out \subseteq {"ok", "nowindow"} /\ \E s \in want : ~\E i \in DOMAIN e.calls : SameArgs(e.calls[i], s)
                THEN {<<"C14", "missing calls">>} ELSE {})

-----------------------------------------------------------------------------
\* errors
Lower(n, d) == LET g == GCD(n, d) IN IF g = 0 THEN <<n, d>> ELSE <<n \div g, d \div g>>
Prod(x, y) == LET a == Lower(x[1], y[2])
                  c == Lower(y[1], x[2])
              IN IF x[2] = 0 \/ y[2] = 0 THEN <<0, 0>>
                 ELSE IF Fits(a[1], c[1]) /\ Fits(a[2], c[2]) THEN <<a[1] * c[1], a[2] * c[2]>> ELSE <<0, 0>>
RECURSIVE Prods(_)
Prods(s) == IF Len(s) = 1 THEN s[1] ELSE Prod(s[1], Prods(Tail(s)))

\* square of the error of output p for input c, <<0, 0>> when unknown here
Error2(r, p, c) ==
  LET n == Len(r.e[p])
      z == r.z[p]
      k == Cardinality(r.rej[p])
  IN IF z.den > 3000 \/ Greatest(r.e[p]) > 500 \/ (\E m \in DOMAIN r.x : Greatest(r.x[m]) > 500)
        \/ (\E m \in DOMAIN z.num : Abs(z.num[m][1]) + Abs(z.num[m][2]) > 3000) \/ n = k \/ n <= Len(r.x)
        \/ (Len(r.x) = 2 /\ \E m \in DOMAIN r.x : Energy(r.x[m], Ones(n)) > 22000) \/ Len(r.x) > 2
     THEN <<0, 0>>
     ELSE LET res == ScaledResidual(r.e[p], r.x, z)
              inv == InverseDiagonal(r.x, c)
          IN IF Greatest(res) > 5000 THEN <<0, 0>>
             ELSE Prods(<< <<Energy(res, Ones(n)), 1>>, <<1, z.den>>, <<1, z.den>>, <<inv.num, inv.den>>,
                           <<r.d[c], 1>>, <<r.d[c], 1>>, <<n * n, n - Len(r.x)>>, <<1, (n - k) * (n - k)>> >>)

ErrorOK(r, o, p, c) ==
  LET x == Error2(r, p, c)
  IN x[2] = 0 \/ x[2] >= 200000000 \/ o.k[p][c] < 0 \/ Close(o.v[p][c], o.k[p][c], x[1], x[2], 40)

-----------------------------------------------------------------------------
Ne(e) == Len(e.q.elec)
Nb(e) == Len(e.q.mag)
Nr(e) == Len(e.q.rem)

ShapesOK(e, o) == o.zs = <<Ne(e), Nb(e)>> /\ o.es = <<Ne(e), Nb(e)>> /\ o.ts = <<Nb(e), Nr(e)>>

\* z = num / (den/d)
ZOK(e, r, o) ==
  \A p \in 1..Ne(e) : \A c \in 1..Nb(e) :
    LET z == r.z[p]
        n == z.num[c]
        d == r.d[c]
    IN IF Abs(n[1]) > 100000 \/ Abs(n[2]) > 100000 \/ d > 1000 \/ Abs(n[1]) + Abs(n[2]) > 200000 \div d THEN TRUE
       ELSE NearC(o.z[p][c], <<n[1] * d, n[2] * d>>, z.den)
TOK(e, r, o) == e.q.rem = <<>> \/ \A p \in 1..Nb(e) : \A c \in 1..Nr(e) : NearC(o.T[p][c], r.T[p].num[c], r.T[p].den)

Times(e, f, rej) == LET ct == Centres(e.q, f)
                        s == Sorted(rej)
                    IN [i \in DOMAIN s |-> ct[s[i] + 1]]

EntryJudge(e, f, r, o) ==
  IF ~ShapesOK(e, o) THEN {<<"C13", "shapes">>}
  ELSE IF r.out = "any" THEN {}
  ELSE IF r.out = "ok" THEN
    IF ~o.finite \/ (~o.efinite /\ \A p \in 1..Ne(e) : Len(r.e[p]) > Nb(e) /\ Cardinality(r.rej[p]) < Len(r.e[p])) THEN {<<"C13", "disturbed">>}
    ELSE (IF ~ZOK(e, r, o) THEN {<<"C14", "impedance">>} ELSE {})
         \cup (IF ~TOK(e, r, o) THEN {<<"C14", "transfer">>} ELSE {})
         \cup (IF Len(o.ivt) # Ne(e) THEN {<<"C13", "times shape">>}
               ELSE IF e.keep
                    THEN IF \E p \in 1..Ne(e) : o.ivt[p] # Times(e, f, r.rej[p]) THEN {<<"C14", "times">>} ELSE {}
                    ELSE IF \E p \in 1..Ne(e) : o.ivt[p] # <<>> THEN {<<"C14", "unasked times">>} ELSE {})
         \cup (IF \E p \in 1..Ne(e) : \E c \in 1..Nb(e) : ~ErrorOK(r, o, p, c) THEN {<<"C23", "impedance error">>} ELSE {})
  ELSE (IF ~o.nan THEN {<<"C13", "failure hidden">>} ELSE {})
       \cup (IF \E p \in DOMAIN o.ivt : o.ivt[p] # <<>> THEN {<<"C13", "times of a failure">>} ELSE {})

RECURSIVE Raises(_, _)
Raises(r, i) == IF i > Len(r) THEN "no"
                ELSE CASE r[i].out \in {"fail", "nonconv"} -> "yes"
                       [] r[i].out = "any" -> "maybe"
                       [] OTHER -> Raises(r, i + 1)

-----------------------------------------------------------------------------
\* "times": rejected windows of runs [start, rate, n, p, m], in ticks of 1/240 s
RECURSIVE RunCentres(_, _)
RunCentres(e, i) ==
  IF i > Len(e.runs) THEN <<>>
  ELSE LET r == e.runs[i]
           len == F!WindowLength(r, e.nper)
           s == F!Shift(len, e.on, e.od)
       IN [k \in 1..F!Count(r.n, len, s) |-> r.start + ((2 * s * (k - 1) + len) * 120) \div r.rate] \o RunCentres(e, i + 1)

TimesJudge(e) ==
  LET ct == RunCentres(e, 1)
      want == [i \in DOMAIN e.rej |-> ct[e.rej[i] + 1]]
  IN IF ~e.ok THEN {<<"C14", "refused">>}
     ELSE IF \E i \in DOMAIN e.counts : e.counts[i] # Len(ct) THEN {<<"C14", "windows">>}
     ELSE IF Len(e.ivt) # e.ne \/ \E p \in DOMAIN e.ivt : e.ivt[p] # want THEN {<<"C14", "times">>} ELSE {}

ImpExpected(e) == IF e.op = "times" THEN [times |-> RunCentres(e, 1)] ELSE [i \in DOMAIN e.freqs |-> LET r == Entries(e)[i]
                    IN IF r.out = "ok" THEN [out |-> r.out, z |-> r.z, d |-> r.d, rej |-> r.rej, T |-> r.T,
                                              times |-> [p \in DOMAIN r.rej |-> Times(e, e.freqs[i], r.rej[p])]]
                       ELSE [out |-> r.out]]

ImpedanceJudge(e) ==
  LET r == Entries(e)
      raises == IF e.silent THEN "no" ELSE Raises(r, 1)
  IN (IF e.mutated THEN {<<"C14", "arguments">>} ELSE {})
     \cup (IF e.ok THEN
             IF raises = "yes" THEN {<<"C13", "silent">>}
             ELSE IF Len(e.entries) # Len(e.freqs) THEN {<<"C13", "entries">>}
             ELSE UNION {EntryJudge(e, e.freqs[i], r[i], e.entries[i]) : i \in DOMAIN e.freqs}
                  \cup CallsJudge(e, r)
           ELSE IF raises = "no" THEN {<<"C13", "aborted">>} ELSE {})

ImpJudge(e) == IF e.op = "times" THEN TimesJudge(e) ELSE ImpedanceJudge(e)
=============================================================================
