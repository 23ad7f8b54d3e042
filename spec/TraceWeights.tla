----------------------------- MODULE TraceWeights -----------------------------
(***************************************************************************)
(* Calls of the weighting objects.  Weights observed are in 1/Unit, -5 for NaN. *)
(*   "huber"    e.x magnitudes, e.out rejected, e.an/e.ad multiple, e.w             *)
(*   "thomson"  e.ests: estimations one after the other with one object, each a       *)
(*              sequence of calls [x, out, w]; e.fixed: same threshold whatever the    *)
(*              number of observations                                                 *)
(*   "bounded"  e.calls: [out, w, base], base being the weights of the residuals         *)
(*   "same"     e.pairs: [out, w, v], v[e.perm[i]] to be w[i]                             *)
(*   "steps"    a predefined weighting, step by step, on residuals e.x                     *)
(*   "live"     calls recorded within estimations: as "bounded", and e.x in any unit        *)
(***************************************************************************)
EXTENDS WeightFunctions, Decimal, TraceBase

Unit == 100000000
Elems(s) == {s[i] : i \in DOMAIN s}

HuberIs(w, x, out, an, ad) ==
  LET h == HuberWeights(x, out, an, ad)
  IN \A i \in KeptIn(x, out) : w[i] >= 0 /\ Close(w[i], 8, h[i][1], h[i][2], 3)

HuberJudge(e) ==
  IF ~e.ok THEN {"refused"}
  ELSE IF Len(e.w) # Len(e.x) THEN {"length"}
  ELSE IF \E i \in KeptIn(e.x, Elems(e.out)) : e.w[i] < 0 THEN {"nan"}
  ELSE IF ~HuberIs(e.w, e.x, Elems(e.out), e.an, e.ad) THEN {"huber"} ELSE {}

\* points [v, s, n, w] of the calls of an estimation, s coming from the first one
Points(est, k) == UNION {{[v |-> est[c].x[i], s |-> MAD4(est[1].x, Elems(est[1].out)), n |-> Len(est[c].x),
                           w |-> est[c].w[i], k |-> k] : i \in KeptIn(est[c].x, Elems(est[c].out))} : c \in DOMAIN est}

\* ratio to the scale not larger
NotLarger(p, q) ==
  IF p.v = 0 THEN TRUE
  ELSE IF q.s = 0 THEN q.v > 0
  ELSE IF p.s = 0 THEN FALSE
  ELSE p.v * q.s <= q.v * p.s

ThomsonJudge(e) ==
  IF ~e.ok THEN {"refused"}
  ELSE IF \E k \in DOMAIN e.ests : \E c \in DOMAIN e.ests[k] : Len(e.ests[k][c].w) # Len(e.ests[k][c].x) THEN {"length"}
  ELSE LET P == UNION {Points(e.ests[k], k) : k \in DOMAIN e.ests}
           cmp(p, q) == p.n = q.n \/ e.fixed
       IN IF \E p \in P : p.w < 0 THEN {"nan"}
          ELSE IF \E p \in P : p.w > Unit THEN {"bounds"}
          ELSE IF \E p, q \in P : p.k = q.k /\ NotLarger(p, q) /\ p.w + 2 < q.w THEN {"monotone"}
          ELSE IF \E p, q \in P : cmp(p, q) /\ NotLarger(p, q) /\ p.w + 2 < q.w THEN {"scale"}
          ELSE {}

BoundedCalls(calls) ==
  UNION {LET c == calls[k]
             out == Elems(c.out)
             kept == KeptIn(c.w, out)
         IN IF Len(c.w) # Len(c.base) THEN {"length"}
            ELSE IF \E i \in DOMAIN c.w \ kept : c.w[i] # 0 THEN {"rejected"}
            ELSE IF \E i \in kept : c.w[i] < 0 THEN {"nan"}
            ELSE IF \E i \in kept : c.w[i] > c.base[i] + 2 THEN {"exceeds"} ELSE {} : k \in DOMAIN calls}

BoundedJudge(e) == (IF ~e.ok THEN {"refused"} ELSE {}) \cup BoundedCalls(e.calls)

SameJudge(e) ==
  IF ~e.ok THEN {"refused"}
  ELSE UNION {LET p == e.pairs[k] IN
    IF Len(p.w) # Len(p.v) THEN {"length"}
    ELSE IF \E i \in KeptIn(p.w, Elems(p.out)) : WAbs(p.w[i] - p.v[e.perm[i]]) > 3 THEN {e.what} ELSE {} : k \in DOMAIN e.pairs}

Same(w, v) == Len(w) = Len(v) /\ \A i \in DOMAIN w : WAbs(w[i] - v[i]) <= 2
Below(w, v) == Len(w) = Len(v) /\ \A i \in DOMAIN w : w[i] <= v[i] + 2

StepsJudge(e) ==
  LET n == Len(e.none)
      first == n > 0 /\ e.none[1] /\ \A k \in 2..n : ~e.none[k]
  IN IF ~e.ok THEN {"refused"}
     ELSE IF ~first THEN {"chain"}
     ELSE CASE e.kind = "ls" -> IF n = 1 THEN {} ELSE {"chain"}
            [] e.kind = "mest" ->
                 IF n # 3 THEN {"chain"}
                 ELSE IF ~HuberIs(e.w[2], e.x, {}, 3, 2) \/ ~Same(e.w[3], e.thomson) THEN {"chain"} ELSE {}
            [] e.kind = "bi" ->
                 IF n # e.nstep + 2 THEN {"chain"}
                 ELSE IF ~(\A k \in 2..(n - 1) : Below(e.w[k], e.huber)) \/ ~Below(e.w[n], e.thomson) THEN {"chain"}
                 \* leverage weights: each step at least as severe as the previous one
                 ELSE IF \E k \in 3..n : \E i \in DOMAIN e.hat[k] :
                           e.hat[k][i] >= 0 /\ e.hat[k - 1][i] >= 0 /\ e.hat[k][i] > e.hat[k - 1][i] + 10
                      THEN {"severity"}
                 \* ... and really more severe on high leverage
                 ELSE IF e.lev # <<>> /\ \E k \in 3..(n - 1) : e.hat[k][e.lev[1]] >= 0
                           /\ e.hat[k - 1][e.lev[1]] > 1000 /\ e.hat[k][e.lev[1]] >= e.hat[k - 1][e.lev[1]]
                           /\ e.hat[k][e.lev[1]] < 9990000
                      THEN {"severity"} ELSE {}

LiveJudge(e) ==
  BoundedCalls(e.calls) \cup
  (IF ~e.thom THEN {}
   ELSE UNION {LET s == e.groups[g]
                   P == UNION {{<<e.calls[c].x[i], e.calls[c].w[i]>> : i \in KeptIn(e.calls[c].w, Elems(e.calls[c].out))}
                               : c \in Elems(s)}
               IN IF \E p, q \in P : p[1] + 20 < q[1] /\ p[2] + 20 < q[2] THEN {"monotone"} ELSE {} : g \in DOMAIN e.groups})

WeightsExpected(e) == IF e.op = "huber" THEN HuberWeights(e.x, Elems(e.out), e.an, e.ad) ELSE <<>>

WeightsJudge(e) ==
  {<<"C22", c>> :
     c \in (CASE e.op = "huber"   -> HuberJudge(e)
              [] e.op = "thomson" -> ThomsonJudge(e)
              [] e.op = "bounded" -> BoundedJudge(e)
              [] e.op = "same"    -> SameJudge(e)
              [] e.op = "steps"   -> StepsJudge(e)
              [] e.op = "live"    -> LiveJudge(e))
           \cup (IF e.mutated THEN {"arguments"} ELSE {})}
=============================================================================
