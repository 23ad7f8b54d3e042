----------------------------- MODULE TraceStore -----------------------------
(***************************************************************************)
(* Are recorded executions of razorback behaviours of SetStore?             *)
(* Each trace is a sequence of events e with the observed outcome:           *)
(*   e.ok, e.res  acceptance and result                                       *)
(*   e.chg       sets whose content is not what it was before the event      *)
(*   e.ichg      inventories (content) likewise                              *)
(* Every disagreement is printed, then the state follows the observation.    *)
(***************************************************************************)
EXTENDS SetStore, Json, IOUtils

VARIABLES tid, l, H, I

Traces == ndJsonDeserialize(IOEnv.TRACE)
Detail == IOEnv.DETAIL = "1"

ByTag(e) == e.op \in {"pack", "joinmerge", "igroups"}

DiffOf(e, a, b) == IF ByTag(e) THEN DiffByTag(a, b) ELSE Diff(a, b)

SetsOf(v) == [i \in DOMAIN v |-> AsSet(v[i])]

DiffSeq(e, a, b) ==
  IF Len(a) # Len(b) THEN "elements"
  ELSE LET bad == {i \in DOMAIN a : DiffOf(e, a[i], b[i]) # ""}
       IN IF bad = {} THEN "" ELSE DiffOf(e, a[SetMin(bad)], b[SetMin(bad)])

DiffValue(e, a, b) ==
  CASE e.op = "iquery" ->
         IF a.tags # Elems(b.tags) THEN "tags" ELSE IF a.rates # b.rates THEN "rates"
         ELSE IF a.starts # b.starts THEN "starts" ELSE IF a.stops # b.stops THEN "stops" ELSE ""
    [] OTHER -> IF a.n <= 0 /\ b.n <= 0 THEN "" ELSE IF a = b THEN "" ELSE "run"

DiffOut(e, p) ==
  IF e.op = "estimate" THEN ""
  ELSE IF e.ok # p.ok THEN (IF e.ok THEN "accepted" ELSE "refused")
  ELSE IF ~e.ok THEN ""
  ELSE CASE p.k = "set"   -> DiffOf(e, p.v, AsSet(e.res))
         [] p.k = "inv"   -> DiffSeq(e, p.v, SetsOf(e.res))
         [] p.k = "refs"  -> DiffSeq(e, Deref(H, p.v), SetsOf(e.res))
         [] p.k = "iedit" -> DiffSeq(e, Deref(H, p.v), SetsOf(e.res))
         [] p.k = "value" -> DiffValue(e, p.v, e.res)
         [] OTHER         -> ""

\* the heap as observed after the event (results not yet appended)
ObsHeap(e) == [i \in DOMAIN H |->
                 LET c == {x \in Elems(e.chg) : x[1] = i}
                 IN IF c = {} THEN H[i] ELSE AsSet((CHOOSE x \in c : TRUE)[2])]

\* sets that should be like g but are observed otherwise
Touched(e, p) ==
  LET O == ObsHeap(e)
      want(i) == IF p.ok /\ e.ok /\ p.k = "edit" /\ p.h = i THEN p.v ELSE H[i]
  IN {i \in DOMAIN H : O[i] # want(i)}

InvTouched(e, p) ==
  LET want(i) == IF e.ok /\ p.ok /\ p.k = "edit" /\ \E j \in DOMAIN I[i] : I[i][j] = p.h
                 THEN "edit" ELSE IF e.ok /\ p.k = "iedit" /\ p.h = i THEN "own" ELSE "same"
      seen(i) == {x \in Elems(e.ichg) : x[1] = i}
      new(i)  == [j \in DOMAIN I[i] |-> IF I[i][j] = p.h THEN p.v ELSE H[I[i][j]]]
      obs(i)  == SetsOf((CHOOSE x \in seen(i) : TRUE)[2])
  IN {i \in DOMAIN I :
        CASE want(i) = "edit" -> IF seen(i) = {} THEN new(i) # Deref(H, I[i]) ELSE new(i) # obs(i)
          [] want(i) = "own"  -> FALSE
          [] OTHER            -> seen(i) # {}}

Verdict(e, p) ==
  LET o == DiffOut(e, p)
      t == Touched(e, p)
      it == InvTouched(e, p)
      own == IF p.k = "edit" THEN {p.h} ELSE {}
  IN (IF o # "" THEN {<<Owner(e), o>>} ELSE {})
     \cup (IF t \cap own # {} THEN {<<Owner(e), "edit">>} ELSE {})
     \cup (IF t \ own # {} \/ (it # {} /\ t \cap own = {}) THEN {<<"C07", "changed">>} ELSE {})
     \cup (IF e.lists # 0 THEN {<<"C07", "list">>} ELSE {})

Report(e, p) ==
  LET bad == Verdict(e, p)
  IN /\ \A b \in bad : PrintT(<<"BAD", tid, l + 1, b[1], b[2]>>)
     /\ bad # {} /\ Detail => PrintT(<<"SPEC", p>>)

NextHeap(e, p) ==
  LET O == ObsHeap(e)
  IN IF ~e.ok THEN O
     ELSE CASE p.k = "set" -> Append(O, AsSet(e.res))
            [] p.k = "inv" -> O \o SetsOf(e.res)
            [] OTHER       -> O

NextInvs(e, p) ==
  IF ~e.ok THEN I
  ELSE CASE p.k = "inv"  -> Append(I, [j \in DOMAIN e.res |-> Len(H) + j])
         [] p.k = "refs" -> Append(I, p.v)
         [] p.k = "iedit" -> [I EXCEPT ![p.h] = p.v]
         [] OTHER        -> I

Init == tid \in 1..Len(Traces) /\ l = 0 /\ H = <<>> /\ I = <<>>

Next ==
  /\ l < Len(Traces[tid])
  /\ LET e == Traces[tid][l + 1]
         p == Predict(e, H, I)
     IN /\ Report(e, p)
        /\ H' = NextHeap(e, p)
        /\ I' = NextInvs(e, p)
  /\ l' = l + 1
  /\ UNCHANGED tid

Spec == Init /\ [][Next]_<<tid, l, H, I>>
=============================================================================
