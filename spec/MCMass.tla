-------------------------------- MODULE MCMass --------------------------------
(* Laws of the restriction to intervals and of the pairing of massive          *)
(* processing, on all small sets of runs.                                      *)
EXTENDS PrefilterValues, TLC

CONSTANTS Rates, Starts, MaxN, MaxRuns, Bounds

VARIABLE q

Run(s, r, n, base) == [start |-> s, rate |-> r, n |-> n, y |-> <<[k \in 1..n |-> base + k], [k \in 1..n |-> 2 * (base + k)]>>]
End(r) == r.start + ((r.n - 1) * Ticks) \div r.rate

Init == q = [runs |-> <<>>, cals |-> <<>>]
Next == /\ Len(q.runs) < MaxRuns
        /\ \E s \in Starts, r \in Rates, n \in 2..MaxN :
             LET k == Len(q.runs)
                 new == Run((IF k = 0 THEN 0 ELSE End(q.runs[k])) + s, r, n, 100 * k)
             IN q' = [runs |-> Append(q.runs, new), cals |-> Append(q.cals, <<<<k + 1, 0>>, <<0, k + 1>>>>)]
Spec == Init /\ [][Next]_q

Times(r) == [k \in 1..r.n |-> <<r.start * r.rate + (k - 1) * Ticks, r.rate>>]   \* numerator, denominator
In(t, iv) == iv[1] * t[2] <= t[1] /\ t[1] <= iv[2] * t[2]
Intervals == {<<a, b>> : a \in Bounds, b \in Bounds}
Values(x) == UNION {{<<x.runs[i].y[c][k], Times(x.runs[i])[k], c, x.cals[i][c]>> : k \in 1..x.runs[i].n, c \in 1..2} : i \in DOMAIN x.runs}

\* exactly the samples of the interval, but for lonely ones, with their own calibrations
Exactly ==
  \A iv \in Intervals :
    LET x == Restrict(q, iv)
        inside(i) == {k \in 1..q.runs[i].n : In(Times(q.runs[i])[k], iv)}
    IN /\ Values(x) = UNION {{v \in Values([q EXCEPT !.runs = <<q.runs[i]>>, !.cals = <<q.cals[i]>>]) : In(v[2], iv)}
                              : i \in {j \in DOMAIN q.runs : Cardinality(inside(j)) >= 2}}
       /\ \A i \in 1..(Len(x.runs) - 1) : End(x.runs[i]) <= x.runs[i + 1].start
       /\ \A i \in DOMAIN x.runs : x.runs[i].n >= 2
\* intervals one after the other are their intersection
Twice ==
  \A iv, jv \in Intervals :
    LET lo == IF iv[1] > jv[1] THEN iv[1] ELSE jv[1]
        hi == IF iv[2] < jv[2] THEN iv[2] ELSE jv[2]
    IN (Restrict(q, iv).runs # <<>>) => Restrict(Restrict(q, iv), jv) = Restrict(q, <<lo, hi>>)
Whole == q.runs # <<>> => Restrict(q, <<q.runs[1].start, End(q.runs[Len(q.runs)]) + 1>>) = q

\* the combinations of n remotes are its subsets, each once, <<>> first
RECURSIVE Combos(_)
Combos(n) == IF n = 0 THEN <<{}>>
             ELSE LET r == Combos(n - 1) IN r \o [i \in DOMAIN r |-> r[i] \cup {n}]
Subsets == \A n \in 0..4 : Len(Combos(n)) = Power(n) /\ {Combos(n)[i] : i \in 1..Power(n)} = SUBSET (1..n)
=============================================================================
