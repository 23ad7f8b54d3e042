------------------------------ MODULE SetStore ------------------------------
(***************************************************************************)
(* A program using signal sets and inventories, as a state machine.         *)
(*   H : the signal sets created so far (a heap)                             *)
(*   I : the inventories created so far, sequences of references into H      *)
(* An event e applies one public operation; Predict(e, H, I) is what the     *)
(* operation must do:                                                        *)
(*   ok  is it accepted                                                      *)
(*   k   kind of the effect                                                  *)
(*         "set"   v is a new signal set                                     *)
(*         "inv"   v is the sequence of the new sets of a new inventory      *)
(*         "refs"  v is the sequence of references of a new inventory        *)
(*         "edit"  set number h becomes v                                    *)
(*         "iedit" inventory number h becomes the references v               *)
(*         "value" v is a returned value                                     *)
(*         "none"  only the absence of side effects is specified             *)
(* A refused operation has no effect at all.                                 *)
(***************************************************************************)
EXTENDS Inventories

\* tag tables travel as sequences of <<name, channels>>
AsTags(q) == [k \in {q[i][1] : i \in DOMAIN q} |->
                LET i == CHOOSE i \in DOMAIN q : q[i][1] = k IN q[i][2]]
AsSet(x)  == [n |-> x.n, t |-> AsTags(x.t), r |-> x.r]

P(ok, k, h, v) == [ok |-> ok, k |-> k, h |-> h, v |-> v]
PSet(x)  == P(x.ok, "set", 0, x.v)
PInv(x)  == P(x.ok, "inv", 0, x.v)

Deref(H, q) == [i \in DOMAIN q |-> H[q[i]]]

Parts(H, q) == [i \in DOMAIN q |-> IF q[i].sync THEN Sync(q[i].r) ELSE Part(H[q[i].h])]

Norm(i, n) == IF i < 0 THEN i + n ELSE i

RunIdx(S, idx) == [j \in DOMAIN idx |-> Norm(idx[j], Len(S.r))]

SelectBoth(S, sel, idx) ==
  LET c == SelectChannels(S, sel)
  IN IF ~c.ok THEN Err ELSE SelectRuns(c.v, RunIdx(S, idx))

SyncSelect(r, idx) ==
  IF idx = <<>> \/ \E j \in DOMAIN idx : Norm(idx[j], NbCh(r)) \notin 0..(NbCh(r)-1)
  THEN [ok |-> FALSE, v |-> r]
  ELSE [ok |-> TRUE, v |-> [r EXCEPT !.ch = [j \in DOMAIN idx |-> r.ch[Norm(idx[j], NbCh(r))+1]]]]

\* replacing the tag table (declared size tn, -1 for a plain mapping)
Retag(S, T, tn) ==
  LET n == IF S.n > 0 THEN S.n ELSE IF tn >= 0 THEN tn ELSE TagTop(T)
  IN IF (S.n > 0 /\ tn > S.n) \/ TagTop(T) > n \/ \E k \in DOMAIN T : T[k] = <<>> THEN Err
     ELSE Ok([S EXCEPT !.t = T, !.n = n])

Query(Q) ==
  [tags   |-> InvTags(Q),
   rates  |-> [i \in DOMAIN Q |-> [j \in DOMAIN Q[i].r |-> Q[i].r[j].p]],
   starts |-> [i \in DOMAIN Q |-> [j \in DOMAIN Q[i].r |-> Q[i].r[j].s]],
   stops  |-> [i \in DOMAIN Q |-> [j \in DOMAIN Q[i].r |-> Stop(Q[i].r[j])]]]

Predict(e, H, I) ==
  CASE e.op = "build"  -> PSet(Build(AsTags(e.t), e.tn, Parts(H, e.parts)))
    [] e.op = "join"   -> PSet(Join(H[e.h], Parts(H, e.parts)))
    [] e.op = "merge"  -> PSet(Merge(Deref(H, e.a)))
    [] e.op = "extract"  -> PSet(ExtractT(H[e.h], e.lo, e.hi, e.excl))
    [] e.op = "sextract" -> LET x == SyncExtract(H[e.h].r[e.j+1], e.lo, e.hi, e.strict)
                            IN P(x.ok, "value", 0, x.v)
    [] e.op = "sindex"   -> LET r == H[e.h].r[e.j+1]
                                lo == IF e.lo = <<>> THEN 0 ELSE e.lo[1]
                                hi == IF e.hi = <<>> THEN r.n ELSE e.hi[1] + (IF e.last THEN 1 ELSE 0)
                                x == SyncCut(r, lo, hi, e.strict)
                            IN P(x.ok, "value", 0, x.v)
    [] e.op = "channels" -> PSet(SelectChannels(H[e.h], e.sel))
    [] e.op = "sselect"  -> LET x == SyncSelect(H[e.h].r[e.j+1], e.idx) IN P(x.ok, "value", 0, x.v)
    [] e.op = "runs"     -> PSet(SelectRuns(H[e.h], RunIdx(H[e.h], e.idx)))
    [] e.op = "both"     -> PSet(SelectBoth(H[e.h], e.sel, e.idx))
    [] e.op = "copy"     -> PSet(Ok(H[e.h]))
    [] e.op = "icopy"    -> PInv(InvOk(Deref(H, I[e.i])))
    [] e.op = "fuse"     -> PSet(Ok(MergeConsecutive(H[e.h])))
    [] e.op = "settag"   -> P(e.fa /\ TagAssignOK(H[e.h].n, e.v), "edit", e.h,
                              [H[e.h] EXCEPT !.t = TagPut(H[e.h].t, e.key, e.v)])
    [] e.op = "deltag"   -> P(e.key \in DOMAIN H[e.h].t, "edit", e.h,
                              [H[e.h] EXCEPT !.t = TagDel(H[e.h].t, e.key)])
    [] e.op = "retag"    -> LET x == Retag(H[e.h], AsTags(e.t), e.tn) IN P(x.ok, "edit", e.h, x.v)
    [] e.op = "inv"      -> P(TRUE, "refs", 0, e.a)
    [] e.op = "append"   -> P(TRUE, "iedit", e.i, Append(I[e.i], e.h))
    [] e.op = "extend"   -> P(TRUE, "iedit", e.i, I[e.i] \o e.a)
    [] e.op = "badappend" -> P(FALSE, "none", 0, <<>>)
    [] e.op = "add"      -> P(TRUE, "refs", 0, I[e.i] \o I[e.i2])
    [] e.op = "iextract" -> PInv(InvExtractT(Deref(H, I[e.i]), e.lo, e.hi, e.excl))
    [] e.op = "ichannels" -> PInv(InvOk(InvSelectChannels(Deref(H, I[e.i]), Elems(e.names))))
    [] e.op = "iruns"    -> PInv(LET Q == Deref(H, I[e.i]) IN
                                 IF Len(e.idx) # Len(Q) THEN InvErr
                                 ELSE InvSelectRuns(Q, [k \in DOMAIN Q |-> RunIdx(Q[k], e.idx[k])]))
    [] e.op = "ifilter"  -> PInv(InvOk(InvFilter(Deref(H, I[e.i]), AsTags(e.nc), Elems(e.pats))))
    [] e.op = "igroups"  -> PInv(ExtractGroups(Deref(H, I[e.i]), e.groups))
    [] e.op = "pack"     -> PSet(Pack(Deref(H, I[e.i]), e.multi))
    [] e.op = "joinmerge" -> PSet(JoinMerge(Deref(H, I[e.i])))
    [] e.op = "iquery"   -> P(TRUE, "value", 0, Query(Deref(H, I[e.i])))
    [] e.op = "estimate" -> P(TRUE, "none", 0, <<>>)

Owner(e) ==
  CASE e.op \in {"build", "join"}              -> "C01"
    [] e.op = "merge"                          -> "C02"
    [] e.op \in {"extract", "sextract", "sindex"}        -> "C03"
    [] e.op \in {"channels", "sselect"}        -> "C04"
    [] e.op \in {"runs", "fuse", "both"}       -> "C05"
    [] e.op \in {"settag", "deltag", "retag"}  -> "C06"
    [] e.op \in {"pack", "joinmerge", "igroups"} -> "C09"
    [] e.op \in {"estimate", "copy", "icopy"}   -> "C07"
    [] OTHER                                   -> "C08"

\* heap and inventories after a predicted event p with outcome value v
HeapAfter(p, H) == IF ~p.ok THEN H
                   ELSE CASE p.k = "set"  -> Append(H, p.v)
                          [] p.k = "inv"  -> H \o p.v
                          [] p.k = "edit" -> [H EXCEPT ![p.h] = p.v]
                          [] OTHER        -> H
InvsAfter(p, H, I) == IF ~p.ok THEN I
                   ELSE CASE p.k = "inv"   -> Append(I, [j \in DOMAIN p.v |-> Len(H) + j])
                          [] p.k = "refs"  -> Append(I, p.v)
                          [] p.k = "iedit" -> [I EXCEPT ![p.h] = p.v]
                          [] OTHER         -> I
=============================================================================
