------------------------------- MODULE MCLaws -------------------------------
(***************************************************************************)
(* The operations of SignalSets and Inventories, defined algorithmically,   *)
(* checked on every tuple of small signal sets against what they are meant  *)
(* to do, stated sample by sample.  A state is a tuple of operands.          *)
(***************************************************************************)
EXTENDS Inventories

CONSTANTS MaxStart, Pers, MaxN, MaxRuns, Arity, Mode

VARIABLE q        \* the operands

Runs(w, nch) ==
  {[s |-> s, p |-> p, n |-> n, ch |-> [k \in 1..nch |-> [g |-> <<<<w * 10 + k, 0, n>>>>, c |-> w * 10 + k]]] :
      s \in 0..MaxStart, p \in Pers, n \in 1..MaxN}

\* second run of a set: other tracks
Retrack(r, d) == [r EXCEPT !.ch = [k \in DOMAIN r.ch |-> [r.ch[k] EXCEPT !.g = <<<<@[1][1] + d, 0, r.n>>>>]]]

RunSeqs(w, nch) ==
  {<<>>} \cup {<<r>> : r \in Runs(w, nch)}
  \cup (IF MaxRuns >= 2 THEN {<<r1, Retrack(r2, 5)>> : r1 \in Runs(w, nch), r2 \in Runs(w, nch)} ELSE {})

Sets(w, nch, T) ==
  {S \in {[n |-> nch, t |-> T, r |-> rs] : rs \in RunSeqs(w, nch)} :
     NoOverlap(S.r) /\ Sorted(S.r) /\ (Len(S.r) = 2 => Before(S.r[1], S.r[2]))}

Ticks == -1..(MaxStart + MaxN * SetMax(Pers) + 1)

\* families of operands by mode
T1(k)  == (k :> <<0>>)
TAB    == ("A" :> <<0>>) @@ ("B" :> <<1>>)
TBA    == ("A" :> <<1>>) @@ ("B" :> <<0>>)
Name(i) == <<"A", "B", "C">>[i]
Fam(i) ==
  CASE Mode = "join"  -> IF i = 1 THEN Sets(1, 2, TAB) ELSE Sets(i, 2, TAB) \cup Sets(i, 2, TBA)
    [] Mode = "merge" -> Sets(i, 1, T1(Name(i)))
    [] Mode = "extract" /\ i = 2 -> Ticks
    [] Mode = "inv" -> UNION {Sets(i, 2, T) : T \in {TAB, TBA, "A" :> <<1>>, ("AB" :> <<1, 0>>) @@ ("B" :> <<1>>), <<>>}}
    [] Mode = "pack"  -> IF i = 3 THEN Sets(3, 1, T1("A"))
                         ELSE Sets(i, 1, T1(Name(i)))
    [] OTHER          -> Sets(i, 2, ("A" :> <<0>>) @@ ("AB" :> <<1, 0>>))

Init == q = <<>>
Next == Len(q) < Arity /\ \E a \in Fam(Len(q) + 1) : q' = Append(q, a)
Spec == Init /\ [][Next]_q
Full == Len(q) = Arity


\* sample of channel c (from 1) of run r at tick t: <<track, index>>
At(r, c, t) == LET x == CutSeg(r.ch[c].g, (t - r.s) \div r.p, 1)[1] IN <<x[1], x[2]>>
Hits(r, t)  == r.s <= t /\ t <= Stop(r) /\ (t - r.s) % r.p = 0
\* all that a tag records, as a set of <<period, tick, samples, calibrations>>
Record(S, k) ==
  UNION {{<<r.p, t, [j \in DOMAIN S.t[k] |-> At(r, S.t[k][j] + 1, t)],
                    [j \in DOMAIN S.t[k] |-> r.ch[S.t[k][j] + 1].c]>> :
           t \in {x \in Ticks : Hits(r, x)}} : r \in Elems(S.r)}

(* join *)
Disjoint(a, b) == \A x \in Elems(a.r), y \in Elems(b.r) : Stop(x) <= y.s \/ Stop(y) <= x.s

JoinRight == Full =>
  LET x == Join(q[1], <<Part(q[2])>>)
      y == Join(q[2], <<Part(q[1])>>)
  IN /\ x.ok = Disjoint(q[1], q[2])
     /\ x.ok = y.ok
     /\ x.ok => /\ SetOK(x.v)
                /\ DiffByTag(x.v, y.v) = ""
                /\ x.v.t = q[1].t
                /\ Len(x.v.r) = Len(q[1].r) + Len(q[2].r)
                /\ \A k \in DOMAIN q[1].t : Record(x.v, k) = Record(q[1], k) \cup Record(q[2], k)

(* merge *)
\* one sampling clock covers [a, b] in each operand
Sync2(Q, p, a, b) ==
  \A i \in DOMAIN Q : \E r \in Elems(Q[i].r) : r.p = p /\ r.s <= a /\ b <= Stop(r)
                                                /\ (a - r.s) % p = 0
Misaligned(Q) ==
  \E x \in Elems(Q[1].r), y \in Elems(Q[2].r) :
    LET lo == MaxOf(x.s, y.s)  hi == MinOf(Stop(x), Stop(y)) IN
    x.p = y.p /\ CountIn(x, lo, hi) >= 2 /\ CountIn(y, lo, hi) >= 2 /\ (x.s - y.s) % x.p # 0

MergeRight == Full =>
  LET x == Merge(q) IN
  /\ x.ok = ~Misaligned(q)
  /\ x.ok =>
      /\ SetOK(x.v)
      /\ x.v.n = q[1].n + q[2].n
      \* its runs are common intervals
      /\ \A i \in DOMAIN x.v.r : Sync2(q, x.v.r[i].p, x.v.r[i].s, Stop(x.v.r[i])) /\ x.v.r[i].n >= 2
      \* each common interval of two samples is inside a run
      /\ \A p \in Pers : \A t \in Ticks : Sync2(q, p, t, t + p) =>
            \E i \in DOMAIN x.v.r : x.v.r[i].p = p /\ x.v.r[i].s <= t /\ t + p <= Stop(x.v.r[i])
      \* and every sample is one of the operand having the tag
      /\ \A j \in DOMAIN q : \A k \in DOMAIN q[j].t :
           k \in DOMAIN x.v.t /\ Record(x.v, k) \subseteq Record(q[j], k)
      /\ DiffByTag(x.v, Merge(<<q[2], q[1]>>).v) = ""
  /\ ~Merge(<<q[1], q[1]>>).ok       \* shared tag names

(* extract *)
Kept(rec, a, b) == {x \in rec : a <= x[2] /\ x[2] <= b}

\* records of the runs keeping at least two samples
Survivors(S, a, b) ==
  [S EXCEPT !.r = SelectSeq(S.r, LAMBDA r : Cardinality({t \in Ticks : Hits(r, t) /\ a <= t /\ t <= b}) >= 2)]

ExtractRight == Full =>
  \A b \in Ticks :
    LET a == q[2]
        x == ExtractT(q[1], a, b, FALSE) IN
    /\ x.ok /\ SetOK(x.v) /\ x.v.t = q[1].t /\ x.v.n = q[1].n
    /\ \A k \in DOMAIN q[1].t : Record(x.v, k) = Kept(Record(Survivors(q[1], a, b), k), a, b)
    /\ \A i \in DOMAIN x.v.r : x.v.r[i].n >= 2
    /\ a <= b =>
       LET y == ExtractT(q[1], a, b, TRUE) IN
       /\ y.ok /\ SetOK(y.v)
       /\ \A k \in DOMAIN q[1].t :
            Record(y.v, k) = Kept(Record(Survivors(q[1], -1, a), k), -1, a)
                             \cup Kept(Record(Survivors(q[1], b, SetMax(Ticks)), k), b, SetMax(Ticks))
    \* restricting twice is restricting to the intersection
    /\ \A c \in {0, 2, 5} : ExtractIn(ExtractIn(q[1], a, b), c, b) = ExtractIn(q[1], MaxOf(a, c), b)

(* runs and fusing *)
FuseRight == Full =>
  LET x == MergeConsecutive(q[1]) IN
  /\ SetOK(x) /\ x.t = q[1].t
  /\ MergeConsecutive(x) = x
  /\ \A i \in 1..(Len(x.r)-1) : ~Follows(x.r[i], x.r[i+1])
  \* no sample is lost, duplicated or moved; calibrations are those of the first run of a chain
  /\ \A k \in DOMAIN x.t :
        {<<y[1], y[2], y[3]>> : y \in Record(x, k)} = {<<y[1], y[2], y[3]>> : y \in Record(q[1], k)}
  /\ SumSeq([i \in DOMAIN x.r |-> x.r[i].n]) = SumSeq([i \in DOMAIN q[1].r |-> q[1].r[i].n])
  /\ \A i \in DOMAIN x.r : \E j \in DOMAIN q[1].r :
        /\ q[1].r[j].s = x.r[i].s
        /\ \A c \in DOMAIN x.r[i].ch : x.r[i].ch[c].c = q[1].r[j].ch[c].c
  /\ \A I \in SUBSET (0..(Len(q[1].r)-1)) :
        LET y == SelectRuns(q[1], AnySeq(I)) IN
        y.ok /\ SetOK(y.v) /\ Elems(y.v.r) = {q[1].r[i+1] : i \in I} /\ Len(y.v.r) = Cardinality(I)

ChannelsRight == Full =>
  \A X \in SUBSET (0..(q[1].n - 1)) :
    LET y == SelectChannels(q[1], [i \in 1..Cardinality(X) |-> [tag |-> FALSE, name |-> "", idx |-> Ascending(X)[i]]])
    IN /\ y.ok = (X # {} \/ q[1].r = <<>>)
       /\ y.ok => /\ SetOK(y.v)
                  /\ DOMAIN y.v.t = {k \in DOMAIN q[1].t : Elems(q[1].t[k]) \subseteq X}
                  /\ \A k \in DOMAIN y.v.t : Record(y.v, k) = Record(q[1], k)

(* pack *)
PackRight == Full =>
  LET x == PackAll(q) IN
  /\ x.ok => /\ SetOK(x.v) /\ PackOK(q, x.v)
             /\ DiffByTag(x.v, PackAll(<<q[2], q[1]>> \o SubSeq(q, 3, Len(q))).v) = ""
             /\ Len(q) = 3 => DiffByTag(x.v, PackAll(<<q[3], q[1], q[2]>>).v) = ""
  \* recordings that never overlap, on one clock, can always be packed
  /\ (\A k \in InvTags(q) : \A p, p2 \in Periods(q) : p = p2 /\
         LET rec == Recordings(q, k, p) IN
         \A i, j \in DOMAIN rec : (rec[i].s - rec[j].s) % p = 0
                 /\ (i < j => Stop(rec[i]) <= rec[j].s \/ Stop(rec[j]) <= rec[i].s)) 
     /\ (\A i, j \in DOMAIN q : \A u \in Elems(q[i].r), w \in Elems(q[j].r) : (u.s - w.s) % u.p = 0)
     => x.ok
  \* one packing for every order, or none
  /\ x.ok = PackAll(<<q[2], q[1]>> \o SubSeq(q, 3, Len(q))).ok

(* inventories *)
Code == [A |-> <<65>>, B |-> <<66>>, AB |-> <<65, 66>>]
AllNames == DOMAIN Code
\* the same recordings, whatever the numbers of the channels
SameRecords(S, S2) == DOMAIN S.t = DOMAIN S2.t /\ \A k \in DOMAIN S.t : Record(S, k) = Record(S2, k)
Lists == {<<q[1]>>, <<q[1], q[2]>>, <<q[2], q[1]>>, <<q[1], q[1]>>}

InventoryRight == Full =>
  /\ InvTags(q) = DOMAIN q[1].t \cup DOMAIN q[2].t
  /\ \A names \in SUBSET AllNames :
       LET x == InvSelectChannels(q, names)
           has(S) == names \cap DOMAIN S.t # {}
           left == SelectSeq(q, has)
       IN /\ Len(x) = Len(left)                       \* only elements left with nothing go
          /\ \A i \in DOMAIN x :
               /\ SetOK(x[i])
               /\ Len(x[i].r) = Len(left[i].r)
               /\ names \cap DOMAIN left[i].t \subseteq DOMAIN x[i].t
               /\ x[i].n = Cardinality(TagChannels(left[i], names))
               \* the tags that survive are those whose channels are all requested
               /\ DOMAIN x[i].t = {k \in DOMAIN left[i].t : Elems(left[i].t[k]) \subseteq TagChannels(left[i], names)}
               /\ \A k \in DOMAIN x[i].t : Record(x[i], k) = Record(left[i], k)
          \* selecting again changes nothing, selecting from a sum is summing selections
          /\ InvSelectChannels(x, names) = x
          /\ x = InvSelectChannels(<<q[1]>>, names) \o InvSelectChannels(<<q[2]>>, names)
          \* patterns that are plain names select these names, '*' everything that has a tag
          /\ InvFilter(q, Code, {Code[k] : k \in names}) = x
          \* in time, then channels: as channels, then in time
          /\ \A a \in {0, 1, 3}, b \in {2, 4} :
               LET y == InvExtractT(x, a, b, FALSE)
                   z == InvExtractT(q, a, b, FALSE)
               IN y.ok /\ z.ok /\ y.v = InvSelectChannels(z.v, names)
  /\ \A a \in {0, 1, 3}, b \in {2, 4} :
       LET x == InvExtractT(q, a, b, FALSE)
           w == SelectSeq(q, LAMBDA S : ExtractIn(S, a, b).r # <<>>)
       IN /\ x.ok /\ Len(x.v) = Len(w)
          /\ \A i \in DOMAIN x.v : x.v[i].r # <<>> /\ x.v[i] = ExtractIn(w[i], a, b)
  /\ InvTags(InvFilter(q, Code, {<<STAR>>})) = InvTags(q)
  /\ \A Q \in Lists : \A I \in SUBSET {0, 1} :
       LET x == InvSelectRuns(Q, [i \in DOMAIN Q |-> Ascending(I)])
       IN /\ x.ok = \A i \in DOMAIN Q : \A j \in I : j < Len(Q[i].r)
          /\ x.ok => Len(x.v) = IF I = {} THEN 0 ELSE Len(Q)
  /\ ~InvSelectRuns(q, <<<<0>>>>).ok               \* one selection per element
=============================================================================
