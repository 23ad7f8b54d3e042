----------------------------- MODULE Inventories -----------------------------
(***************************************************************************)
(* Inventories: sequences of signal sets, their queries and packing.        *)
(* Q is a sequence of signal sets (see SignalSets).                         *)
(***************************************************************************)
EXTENDS SignalSets, Globs

InvTags(Q) == UNION {DOMAIN Q[i].t : i \in DOMAIN Q}

NonEmpty(Q) == SelectSeq(Q, LAMBDA S : S.r # <<>>)

InvOk(Q) == [ok |-> TRUE, v |-> Q]
InvErr   == [ok |-> FALSE, v |-> <<>>]

InvExtractT(Q, a, b, excl) ==
  LET q == [i \in DOMAIN Q |-> ExtractT(Q[i], a, b, excl)]
  IN IF \E i \in DOMAIN q : ~q[i].ok THEN InvErr
     ELSE InvOk(NonEmpty([i \in DOMAIN q |-> q[i].v]))

\* channels of S designated by some of the names
TagChannels(S, names) == UNION {Elems(S.t[k]) : k \in names \cap DOMAIN S.t}

InvSelectChannels(Q, names) ==
  LET q == SelectSeq(Q, LAMBDA S : TagChannels(S, names) # {})
  IN [i \in DOMAIN q |-> KeepChannels(q[i], TagChannels(q[i], names))]

\* idx: one sequence of run numbers per element
InvSelectRuns(Q, idx) ==
  IF Len(idx) # Len(Q) THEN InvErr
  ELSE LET q == [i \in DOMAIN Q |-> SelectRuns(Q[i], idx[i])]
       IN IF \E i \in DOMAIN q : ~q[i].ok THEN InvErr
          ELSE InvOk(NonEmpty([i \in DOMAIN q |-> q[i].v]))

\* code: function from tag names to words;  patterns: set of words
MatchingNames(names, code, patterns) ==
  {k \in names : \E p \in patterns : Matches(p, code[k])}
InvFilter(Q, code, patterns) ==
  InvSelectChannels(Q, MatchingNames(InvTags(Q), code, patterns))

-----------------------------------------------------------------------------
(* Packing, as an algorithm: for each sampling period, tags recorded by the  *)
(* same elements form a group, groups are joined then merged.                *)

Periods(Q) == UNION {{Q[i].r[j].p : j \in DOMAIN Q[i].r} : i \in DOMAIN Q}

AtPeriod(Q, p) ==
  NonEmpty([i \in DOMAIN Q |-> [Q[i] EXCEPT !.r = SelectSeq(Q[i].r, LAMBDA r : r.p = p)]])

Holders(Q, k) == {i \in DOMAIN Q : k \in DOMAIN Q[i].t}

TagGroups(Q) == {{l \in InvTags(Q) : Holders(Q, l) = Holders(Q, k)} : k \in InvTags(Q)}

JoinMerge(Q) ==
  IF Q = <<>> THEN Ok(NoSet)
  ELSE IF InvTags(Q) = {} THEN Err
  ELSE LET groups == AnySeq(TagGroups(Q))
           joined == [i \in DOMAIN groups |-> JoinSets(InvSelectChannels(Q, groups[i]))]
       IN IF \E i \in DOMAIN joined : ~joined[i].ok THEN Err
          ELSE IF Len(joined) = 1 THEN joined[1]
          ELSE Merge([i \in DOMAIN joined |-> joined[i].v])

PackAll(Q) ==
  LET ps    == Ascending(Periods(Q))
      parts == [i \in DOMAIN ps |-> JoinMerge(AtPeriod(Q, ps[i]))]
      good  == SelectSeq([i \in DOMAIN parts |-> parts[i].v],
                         LAMBDA S : S.r # <<>> /\ InvTags(Q) \subseteq DOMAIN S.t)
      all   == JoinSets(good)
  IN IF \E i \in DOMAIN parts : ~parts[i].ok THEN Err
     ELSE IF good = <<>> THEN Ok(NoSet)
     ELSE IF ~all.ok THEN Err
     ELSE Ok(MergeConsecutive(all.v))

SingleTags(Q) == {k \in InvTags(Q) : \E i \in Holders(Q, k) : Len(Q[i].t[k]) = 1}

Pack(Q, multi) ==
  IF multi THEN PackAll(Q)
  ELSE LET q == AnySeq(SingleTags(Q))
       IN PackAll(Flat([i \in DOMAIN q |-> InvSelectChannels(Q, {q[i]})]))

(* groups: sequence of [k |-> new tag, old |-> sequence of tag names] *)
Grouped(Q, g) ==
  LET P == PackAll(InvSelectChannels(Q, Elems(g.old)))
      v == Flat([i \in DOMAIN g.old |-> P.v.t[g.old[i]]])
  IN IF ~P.ok THEN Err
     ELSE IF \E i \in DOMAIN g.old : g.old[i] \notin DOMAIN P.v.t THEN Err
     ELSE IF v = <<>> THEN Err
     ELSE Ok([P.v EXCEPT !.t = TagPut(P.v.t, g.k, v)])

ExtractGroups(Q, groups) ==
  LET q == [i \in DOMAIN groups |-> Grouped(Q, groups[i])]
  IN IF \E i \in DOMAIN q : ~q[i].ok THEN InvErr
     ELSE InvOk([i \in DOMAIN q |-> q[i].v])

-----------------------------------------------------------------------------
(* Packing, as a statement about recordings: what a tag records at period p. *)

\* the runs, reduced to the channels of tag k in the order of the tag
Recordings(Q, k, p) ==
  Flat([i \in DOMAIN Q |->
     IF k \notin DOMAIN Q[i].t THEN <<>>
     ELSE LET rs == SelectSeq(Q[i].r, LAMBDA r : r.p = p)
          IN [j \in DOMAIN rs |-> [rs[j] EXCEPT !.ch = TagView(Q[i], rs[j], k)]]])

Covers(r, a, b) == r.s <= a /\ b <= Stop(r) /\ (a - r.s) % r.p = 0 /\ (b - r.s) % r.p = 0

\* [a, b] is an interval on which each tag has one recording of period p
CommonAt(Q, p, a, b) ==
  \A k \in InvTags(Q) : \E j \in DOMAIN Recordings(Q, k, p) : Covers(Recordings(Q, k, p)[j], a, b)

(* P is a right packing of Q: *)
PackOK(Q, P) ==
  /\ P.r # <<>> => DOMAIN P.t = InvTags(Q)
  \* each run is made of consecutive pieces covered by one recording of each tag,
  \* with the samples and calibrations of these recordings
  /\ \A i \in DOMAIN P.r : \A k \in DOMAIN P.t :
       LET r == P.r[i]
           rec == Recordings(Q, k, r.p)
       IN \A x \in 0..(r.n-1) : \E j \in DOMAIN rec :
            /\ Covers(rec[j], r.s + x * r.p, r.s + x * r.p)
            /\ LET y == (r.s + x * r.p - rec[j].s) \div r.p
                   v == TagView(P, r, k)
               IN /\ Len(v) = NbCh(rec[j])
                  /\ \A c \in DOMAIN v : CutSeg(v[c].g, x, 1) = CutSeg(rec[j].ch[c].g, y, 1)
  \* nothing is missing: each common interval of two samples is inside a run
  /\ \A p \in Periods(Q) :
       LET starts == UNION {{Q[i].r[j].s + x * p : x \in 0..(Q[i].r[j].n - 1)} :
                              <<i, j>> \in {<<i, j>> \in (1..Len(Q)) \X (1..10) :
                                              j <= Len(Q[i].r) /\ Q[i].r[j].p = p}}
       IN \A a \in starts : CommonAt(Q, p, a, a + p) =>
            \E i \in DOMAIN P.r : P.r[i].p = p /\ P.r[i].s <= a /\ a + p <= Stop(P.r[i])
  \* and no two runs could still be fused
  /\ \A i \in 1..(Len(P.r)-1) : ~Follows(P.r[i], P.r[i+1])
=============================================================================
