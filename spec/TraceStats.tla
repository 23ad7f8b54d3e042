------------------------------ MODULE TraceStats ------------------------------
(***************************************************************************)
(* Error estimates and coherence prefilters, squared so as to be rational.     *)
(*   "error": e.v[p][q] * 10^-e.k[p][q] is the square of the error, for outputs  *)
(*            and inputs multiplied by 10^e.so and 10^e.si                        *)
(*   "cod":   e.v[i] * 10^-8 is the square of the value of window i, e.rej the     *)
(*            windows rejected for bounds e.lo and e.hi (<<num, den>>)             *)
(***************************************************************************)
EXTENDS Statistics, Decimal, TraceBase

Error2(e, p, q) == ErrorSquare(e.outputs[p], e.inputs, [den |-> e.zden, num |-> e.z[p]], q, Len(e.rej[p]))

ErrorJudge(e) ==
  IF InverseDiagonal(e.inputs, 1).den = 0 THEN {}
  ELSE IF ~e.ok THEN {<<"C23", "refused">>}
  ELSE IF Len(e.v) # Len(e.outputs) \/ \E p \in DOMAIN e.v : Len(e.v[p]) # Len(e.inputs) THEN {<<"C23", "shape">>}
  ELSE IF e.neg THEN {<<"C23", "sign">>}
  ELSE IF \E p \in DOMAIN e.v : \E q \in DOMAIN e.inputs :
            LET x == Error2(e, p, q) IN ~Close(e.v[p][q], e.k[p][q], x[1], x[2], 3)
       THEN {<<"C23", "value">>}
  ELSE {}

-----------------------------------------------------------------------------
Coherence2(e, r) == CoherenceSquare(Part(e.e, r), [q \in DOMAIN e.b |-> Part(e.b[q], r)])

CodJudge(e) ==
  LET bl == Blocks(Len(e.e), e.size)
      co == [j \in DOMAIN bl |-> Coherence2(e, bl[j])]
      singular == \E j \in DOMAIN bl : Det(Cross([q \in DOMAIN e.b |-> Part(e.b[q], bl[j])], Ones(bl[j][2] - bl[j][1] + 1)))[1] = 0
      win(j) == (bl[j][1] - 1)..(bl[j][2] - 1)
      rej == {e.rej[i] : i \in DOMAIN e.rej}
  IN IF singular THEN {}
     ELSE IF ~e.ok THEN {<<"C21", "refused">>}
     ELSE IF Len(e.v) # Len(e.e) THEN {<<"C21", "shape">>}
     ELSE IF \E j \in DOMAIN bl : co[j][2] # 0 /\
               \E i \in win(j) : ~Close(e.v[i + 1], 8, co[j][1], co[j][2], 3) THEN {<<"C21", "value">>}
     ELSE IF \E i \in 1..(Len(e.rej) - 1) : e.rej[i] >= e.rej[i + 1] THEN {<<"C21", "order">>}
     ELSE IF ~(rej \subseteq 0..(Len(e.e) - 1)) THEN {<<"C21", "range">>}
     ELSE IF \E j \in DOMAIN bl : \/ Verdict(e.lo, e.hi, co[j]) = "out" /\ ~(win(j) \subseteq rej)
                                  \/ Verdict(e.lo, e.hi, co[j]) = "in" /\ win(j) \cap rej # {}
          THEN {<<"C21", "rejected">>}
     ELSE IF e.mutated THEN {<<"C21", "arguments">>}
     ELSE {}

StatsJudge(e) == IF e.op = "error" THEN ErrorJudge(e) ELSE CodJudge(e)
StatsExpected(e) ==
  IF e.op = "error" THEN [p \in DOMAIN e.outputs |-> [q \in DOMAIN e.inputs |-> Error2(e, p, q)]]
  ELSE LET bl == Blocks(Len(e.e), e.size) IN [j \in DOMAIN bl |-> <<bl[j], Coherence2(e, bl[j])>>]
=============================================================================
