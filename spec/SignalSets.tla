----------------------------- MODULE SignalSets -----------------------------
(***************************************************************************)
(* Values and operations of razorback's signal sets.                        *)
(*                                                                          *)
(* Time is measured in integer ticks.  A run is a group of synchronous      *)
(* channels:                                                                *)
(*    [s |-> start tick, p |-> sampling period in ticks, n |-> size,        *)
(*     ch |-> Seq([g |-> segments, c |-> calibration id])]                  *)
(* Sample k of the run is at tick s + k*p.  The samples of a channel are    *)
(* symbolic: a sequence of segments <<track, from, len>>, meaning samples   *)
(* from, from+1, ... of the original recording `track'.                     *)
(*                                                                          *)
(* A signal set is [n |-> number of channels, t |-> tag table,              *)
(*                  r |-> time ordered sequence of runs];                   *)
(* a tag table is a function from names to sequences of channel numbers     *)
(* (numbered from 0, channel i is ch[i+1]).                                 *)
(*                                                                          *)
(* Every operation yields [ok, v]; ok = FALSE is a refusal.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoSet == [n |-> 0, t |-> <<>>, r |-> <<>>]
Ok(S) == [ok |-> TRUE, v |-> S]
Err   == [ok |-> FALSE, v |-> NoSet]

MinOf(a, b) == IF a <= b THEN a ELSE b
MaxOf(a, b) == IF a >= b THEN a ELSE b
SetMax(X)   == CHOOSE x \in X : \A y \in X : y <= x
SetMin(X)   == CHOOSE x \in X : \A y \in X : x <= y
Elems(q)    == {q[i] : i \in DOMAIN q}

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))

RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))

\* increasing sequence of a finite set of integers
RECURSIVE Ascending(_)
Ascending(X) == IF X = {} THEN <<>> ELSE LET m == SetMin(X) IN <<m>> \o Ascending(X \ {m})

RECURSIVE AnySeq(_)
AnySeq(X) == IF X = {} THEN <<>> ELSE LET m == CHOOSE x \in X : TRUE IN <<m>> \o AnySeq(X \ {m})

-----------------------------------------------------------------------------
(* Samples *)

\* append segment x to q, fusing it with the last one when they are contiguous
AddSeg(q, x) ==
  IF q = <<>> THEN <<x>>
  ELSE LET l == q[Len(q)] IN
       IF l[1] = x[1] /\ l[2] + l[3] = x[2]
       THEN [q EXCEPT ![Len(q)] = <<l[1], l[2], l[3] + x[3]>>]
       ELSE Append(q, x)

RECURSIVE CatSeg(_, _)
CatSeg(q, q2) == IF q2 = <<>> THEN q ELSE CatSeg(AddSeg(q, Head(q2)), Tail(q2))

\* m samples of q, skipping the i first ones
RECURSIVE CutSeg(_, _, _)
CutSeg(q, i, m) ==
  IF m <= 0 \/ q = <<>> THEN <<>>
  ELSE LET h == Head(q) IN
       IF i >= h[3] THEN CutSeg(Tail(q), i - h[3], m)
       ELSE LET k == MinOf(h[3] - i, m)
            IN <<<<h[1], h[2] + i, k>>>> \o CutSeg(Tail(q), 0, m - k)

-----------------------------------------------------------------------------
(* Runs *)

Stop(r)   == r.s + (r.n - 1) * r.p
NbCh(r)   == Len(r.ch)

RunOK(r) == /\ r.p > 0 /\ r.n >= 1
            /\ \A i \in DOMAIN r.ch :
                 SumSeq([j \in DOMAIN r.ch[i].g |-> r.ch[i].g[j][3]]) = r.n

\* samples i .. i+m-1 of the run
CutRun(r, i, m) ==
  [s |-> r.s + i * r.p, p |-> r.p, n |-> m,
   ch |-> [k \in DOMAIN r.ch |-> [g |-> CutSeg(r.ch[k].g, i, m), c |-> r.ch[k].c]]]

CeilDiv(a, b)  == -((-a) \div b)          \* b > 0

\* numbers of the samples with time in [a, b]: first and count
FirstIn(r, a)    == MaxOf(0, CeilDiv(a - r.s, r.p))
LastIn(r, b)     == MinOf(r.n - 1, (b - r.s) \div r.p)
CountIn(r, a, b) == MaxOf(0, LastIn(r, b) - FirstIn(r, a) + 1)

Restrict(r, a, b) == CutRun(r, FirstIn(r, a), CountIn(r, a, b))

Before(a, b) == a.s < b.s \/ (a.s = b.s /\ Stop(a) < Stop(b))

RECURSIVE InsertRun(_, _)
InsertRun(r, q) == IF q = <<>> THEN <<r>>
                   ELSE IF Before(r, Head(q)) THEN <<r>> \o q
                   ELSE <<Head(q)>> \o InsertRun(r, Tail(q))
RECURSIVE SortRuns(_)
SortRuns(q) == IF q = <<>> THEN <<>> ELSE InsertRun(q[Len(q)], SortRuns(SubSeq(q, 1, Len(q)-1)))

NoOverlap(q) == \A i \in 1..(Len(q)-1) : Stop(q[i]) <= q[i+1].s
Sorted(q)    == \A i \in 1..(Len(q)-1) : ~Before(q[i+1], q[i])

-----------------------------------------------------------------------------
(* Signal sets *)

TagIdx(T) == UNION {Elems(T[k]) : k \in DOMAIN T}
TagTop(T) == IF TagIdx(T) = {} THEN 0 ELSE 1 + SetMax(TagIdx(T))

\* Invariant of every signal set
SetOK(S) == /\ \A i \in DOMAIN S.r : RunOK(S.r[i]) /\ NbCh(S.r[i]) = S.n
            /\ NoOverlap(S.r) /\ Sorted(S.r)
            /\ \A k \in DOMAIN S.t : S.t[k] # <<>> /\ Elems(S.t[k]) \subseteq 0..(S.n-1)

\* runs of S with channels renumbered so that its tags become T
Reorder(S, T) ==
  IF S.t = T THEN [ok |-> TRUE, r |-> S.r]
  ELSE
    IF DOMAIN S.t # DOMAIN T \/ \E k \in DOMAIN T \cap DOMAIN S.t : Len(T[k]) # Len(S.t[k])
    THEN [ok |-> FALSE, r |-> <<>>]
    ELSE LET map == UNION {{<<T[k][j], S.t[k][j]>> : j \in DOMAIN T[k]} : k \in DOMAIN T}
             new == {x[1] : x \in map}
             old(i) == CHOOSE o \in {x[2] : x \in {y \in map : y[1] = i}} : TRUE
         IN IF \E i \in new : Cardinality({x \in map : x[1] = i}) # 1
               \/ (S.r # <<>> /\ ~(new = 0..(S.n-1)))
            THEN [ok |-> FALSE, r |-> <<>>]
            ELSE [ok |-> TRUE,
                  r |-> [i \in DOMAIN S.r |->
                          [S.r[i] EXCEPT !.ch = [k \in 1..S.n |-> S.r[i].ch[old(k-1) + 1]]]]]

(* A part of a construction is a run without tags [sync |-> TRUE, r |-> run]
   or a signal set [sync |-> FALSE, S |-> set].
   tn is the declared number of channels of the tag table, -1 if it has none. *)
Sync(r) == [sync |-> TRUE, r |-> r, S |-> NoSet]
Part(S) == [sync |-> FALSE, r |-> <<>>, S |-> S]

Build(T, tn, parts) ==
  LET re   == [i \in DOMAIN parts |-> IF parts[i].sync THEN [ok |-> TRUE, r |-> <<parts[i].r>>]
                                      ELSE Reorder(parts[i].S, T)]
      runs == SortRuns(Flat([i \in DOMAIN re |-> re[i].r]))
      nchs == {NbCh(runs[i]) : i \in DOMAIN runs}
      n    == IF runs # <<>> THEN NbCh(runs[1]) ELSE IF tn >= 0 THEN tn ELSE TagTop(T)
  IN IF \E i \in DOMAIN re : ~re[i].ok THEN Err
     ELSE IF Cardinality(nchs) > 1 \/ ~NoOverlap(runs) THEN Err
     ELSE IF tn > n \/ TagTop(T) > n \/ \E k \in DOMAIN T : T[k] = <<>> THEN Err
     ELSE Ok([n |-> n, t |-> T, r |-> runs])

Join(S, others) == Build(S.t, S.n, [i \in 1..(Len(others)+1) |->
                                      IF i = 1 THEN Part(S) ELSE others[i-1]])

JoinSets(Q) == Build(Q[1].t, Q[1].n, [i \in DOMAIN Q |-> Part(Q[i])])

\* common intervals: every choice of one run per set with an overlap of positive length
RECURSIVE Common(_, _, _)
Common(lo, hi, Q) ==
  IF Q = <<>> THEN <<<<lo, hi>>>>
  ELSE LET cand == SelectSeq(Head(Q).r, LAMBDA r : Stop(r) > lo /\ r.s < hi)
       IN Flat([i \in DOMAIN cand |->
                  Common(MaxOf(lo, cand[i].s), MinOf(hi, Stop(cand[i])), Tail(Q))])

\* the run of S covering [lo, hi]
Covering(S, lo, hi) == S.r[CHOOSE i \in DOMAIN S.r : S.r[i].s <= lo /\ Stop(S.r[i]) >= hi]

Merge(Q) ==
  LET shift(i) == SumSeq([j \in 1..(i-1) |-> Q[j].n])
      N        == shift(Len(Q) + 1)
      names    == UNION {DOMAIN Q[i].t : i \in DOMAIN Q}
      owner(k) == CHOOSE i \in DOMAIN Q : k \in DOMAIN Q[i].t
      T        == [k \in names |-> LET i == owner(k) IN
                                   [j \in DOMAIN Q[i].t[k] |-> Q[i].t[k][j] + shift(i)]]
      conflict == \E i, j \in DOMAIN Q : i # j /\ DOMAIN Q[i].t \cap DOMAIN Q[j].t # {}
      all      == Flat([i \in DOMAIN Q |-> Q[i].r])
      void     == \E i \in DOMAIN Q : Q[i].r = <<>>
      lo       == SetMin({all[i].s : i \in DOMAIN all})
      hi       == SetMax({Stop(all[i]) : i \in DOMAIN all})
      ivs      == IF void THEN <<>> ELSE SelectSeq(Common(lo, hi, Q), LAMBDA x : x[1] < x[2])
      pieces(x) == [i \in DOMAIN Q |-> Restrict(Covering(Q[i], x[1], x[2]), x[1], x[2])]
      tooshort(x) == \E i \in DOMAIN Q : pieces(x)[i].n < 2
      onerate(x)  == Cardinality({pieces(x)[i].p : i \in DOMAIN Q}) = 1
      aligned(x)  == \A i \in DOMAIN Q : pieces(x)[i].s = x[1]
      good     == SelectSeq(ivs, LAMBDA x : ~tooshort(x) /\ onerate(x))
      run(x)   == LET q == pieces(x) IN
                  [s |-> x[1], p |-> q[1].p, n |-> q[1].n,
                   ch |-> Flat([i \in DOMAIN q |-> q[i].ch])]
  IN IF conflict \/ Q = <<>> THEN Err
     ELSE IF \E i \in DOMAIN good : ~aligned(good[i]) THEN Err
     ELSE Ok([n |-> N, t |-> T, r |-> [i \in DOMAIN good |-> run(good[i])]])

\* exactly the samples with time in [a, b], runs of less than 2 samples dropped
ExtractIn(S, a, b) ==
  [S EXCEPT !.r = SelectSeq([i \in DOMAIN S.r |-> Restrict(S.r[i], a, b)], LAMBDA r : r.n >= 2)]

LowTick(S)  == IF S.r = <<>> THEN 0 ELSE S.r[1].s - 1
HighTick(S) == IF S.r = <<>> THEN 0 ELSE SetMax({Stop(S.r[i]) : i \in DOMAIN S.r}) + 1

ExtractT(S, a, b, excl) ==
  IF ~excl THEN Ok(ExtractIn(S, a, b))
  ELSE LET left  == ExtractIn(S, LowTick(S), a)
           right == ExtractIn(S, b, HighTick(S))
       IN JoinSets(<<left, right>>)

\* one run alone: bounds are clipped to the run, or refused in strict mode
SyncExtract(r, a, b, strict) ==
  IF strict /\ ~(r.s <= a /\ a <= Stop(r) /\ r.s <= b /\ b <= Stop(r)) THEN [ok |-> FALSE, v |-> r]
  ELSE LET clip(x) == MinOf(Stop(r), MaxOf(r.s, x))
       IN [ok |-> TRUE, v |-> Restrict(r, clip(a), clip(b))]

\* the same by sample numbers lo..hi-1; numbers from the end (negative) when not strict
SyncCut(r, lo, hi, strict) ==
  LET at(i) == IF ~strict /\ i < 0 THEN i + r.n ELSE i
      i == at(lo)  j == at(hi)
  IN IF strict /\ ~(0 <= i /\ i < r.n /\ 0 <= j /\ j <= r.n) THEN [ok |-> FALSE, v |-> r]
     ELSE [ok |-> TRUE, v |-> CutRun(r, i, MaxOf(0, j - i))]

\* X: set of channel numbers, all existing
KeepChannels(S, X) ==
  LET q    == Ascending(X)
      pos(i) == (CHOOSE j \in DOMAIN q : q[j] = i) - 1
      kept == {k \in DOMAIN S.t : Elems(S.t[k]) \subseteq X}
  IN [n |-> Len(q),
      t |-> [k \in kept |-> [j \in DOMAIN S.t[k] |-> pos(S.t[k][j])]],
      r |-> [i \in DOMAIN S.r |-> [S.r[i] EXCEPT !.ch = [j \in DOMAIN q |-> S.r[i].ch[q[j]+1]]]]]

(* sel: sequence of selectors [tag, name, idx] *)
SelectChannels(S, sel) ==
  LET bad(x) == IF x.tag THEN x.name \notin DOMAIN S.t ELSE x.idx \notin 0..(S.n-1)
      X == UNION {IF sel[i].tag THEN Elems(S.t[sel[i].name]) ELSE {sel[i].idx} : i \in DOMAIN sel}
  IN IF \E i \in DOMAIN sel : bad(sel[i]) THEN Err
     ELSE IF X = {} /\ S.r # <<>> THEN Err
     ELSE Ok(KeepChannels(S, X))

(* idx: sequence of run numbers (from 0) *)
SelectRuns(S, idx) ==
  IF \E i \in DOMAIN idx : idx[i] \notin 0..(Len(S.r)-1) THEN Err
  ELSE Build(S.t, S.n, [i \in DOMAIN idx |-> Sync(S.r[idx[i]+1])])

Follows(a, b) == a.p = b.p /\ b.s = Stop(a) + a.p
Fuse(a, b) == [a EXCEPT !.n = a.n + b.n,
                        !.ch = [k \in DOMAIN a.ch |-> [g |-> CatSeg(a.ch[k].g, b.ch[k].g), c |-> a.ch[k].c]]]
RECURSIVE FuseAll(_)
FuseAll(q) == IF Len(q) <= 1 THEN q
              ELSE IF Follows(q[1], q[2])
                   THEN FuseAll(<<Fuse(q[1], q[2])>> \o SubSeq(q, 3, Len(q)))
                   ELSE <<q[1]>> \o FuseAll(Tail(q))

MergeConsecutive(S) == [S EXCEPT !.r = FuseAll(S.r)]

-----------------------------------------------------------------------------
(* Tag tables *)

TagAssignOK(n, v) == v # <<>> /\ Elems(v) \subseteq 0..(n-1)
TagPut(T, k, v)   == [x \in DOMAIN T \cup {k} |-> IF x = k THEN v ELSE T[x]]
TagDel(T, k)      == [x \in DOMAIN T \ {k} |-> T[x]]

-----------------------------------------------------------------------------
(* Equality of a specified and an observed set.  Runs with the very same     *)
(* interval (only possible for one-sample runs) may come in any order.       *)
CountOf(x, q) == Cardinality({i \in DOMAIN q : q[i] = x})
SameRuns(a, b) == \/ a = b
                  \/ /\ Len(a) = Len(b) /\ Sorted(b)
                     /\ \A i \in DOMAIN a : CountOf(a[i], a) = CountOf(a[i], b)

\* name of the first difference, "" if none
Diff(spec, obs) ==
  IF spec.n # obs.n THEN "channels"
  ELSE IF spec.t # obs.t THEN "tags"
  ELSE IF SameRuns(spec.r, obs.r) THEN ""
  ELSE IF Len(spec.r) # Len(obs.r) THEN "runs"
  ELSE IF \E i \in DOMAIN spec.r : spec.r[i].s # obs.r[i].s \/ spec.r[i].p # obs.r[i].p
                                   \/ spec.r[i].n # obs.r[i].n THEN "times"
  ELSE IF \E i \in DOMAIN spec.r : Len(spec.r[i].ch) # Len(obs.r[i].ch) THEN "channels"
  ELSE IF \E i \in DOMAIN spec.r : \E k \in DOMAIN spec.r[i].ch : spec.r[i].ch[k].g # obs.r[i].ch[k].g
       THEN "samples"
  ELSE "calibrations"

\* Same set up to a renumbering of its channels: tag by tag
TagView(S, r, k) == [j \in DOMAIN S.t[k] |-> r.ch[S.t[k][j]+1]]
TagRuns(S) == [i \in DOMAIN S.r |-> [s |-> S.r[i].s, p |-> S.r[i].p, n |-> S.r[i].n,
                                     v |-> [k \in DOMAIN S.t |-> TagView(S, S.r[i], k)]]]
DiffByTag(spec, obs) ==
  IF spec.n # obs.n THEN "channels"
  ELSE IF DOMAIN spec.t # DOMAIN obs.t THEN "tags"
  ELSE IF \E k \in DOMAIN spec.t : Len(spec.t[k]) # Len(obs.t[k]) THEN "tags"
  ELSE LET pairs == UNION {{<<spec.t[k][j], obs.t[k][j]>> : j \in DOMAIN spec.t[k]} : k \in DOMAIN spec.t}
       IN IF \E x, y \in pairs : (x[1] = y[1]) # (x[2] = y[2]) THEN "tags"
  ELSE IF \E i \in DOMAIN obs.r : NbCh(obs.r[i]) # obs.n THEN "channels"
  ELSE IF SameRuns(TagRuns(spec), TagRuns(obs)) THEN ""
  ELSE IF Len(spec.r) # Len(obs.r) THEN "runs"
  ELSE IF \E i \in DOMAIN spec.r : spec.r[i].s # obs.r[i].s \/ spec.r[i].p # obs.r[i].p
                                   \/ spec.r[i].n # obs.r[i].n THEN "times"
  ELSE IF \E i \in DOMAIN spec.r : \E k \in DOMAIN spec.t :
            \E j \in DOMAIN spec.t[k] :
               TagView(spec, spec.r[i], k)[j].g # TagView(obs, obs.r[i], k)[j].g THEN "samples"
  ELSE "calibrations"
=============================================================================
