------------------------------ MODULE MCWeights ------------------------------
(* Bounded exploration of SharedWeights, and histories to be replayed (Sim). *)
EXTENDS SharedWeights, Json

CONSTANT Sim

KindDef == [H |-> "huber", T |-> "thomson", U |-> "thomson", B |-> "bounded", V |-> "bounded"]
InnerDef == [H |-> "H", T |-> "T", U |-> "U", B |-> "H", V |-> "T"]
ChainsDef == {<<"T">>, <<"H", "T">>, <<"T", "T">>, <<"B", "V">>, <<"V", "T">>, <<"B", "B">>, <<"T", "U">>, <<"U", "H", "U">>}

RNext ==
  IF now = Idle
  THEN \E n \in {RandomElement(1..4)}, d \in {RandomElement(Data)} :
         IF n = 1 THEN \E o \in {RandomElement(DOMAIN Kind)}, it \in {RandomElement({0, 1})} : Poke(o, d, it)
         ELSE \E c \in {RandomElement(Chains)} : Begin(d, c)
  ELSE \E go \in {RandomElement(1..12)} :
         IF go = 1 THEN Interrupt
         ELSE IF now.it = MaxIt THEN (IF go < 5 THEN GiveUp ELSE Converge)
         ELSE IF go > 8 /\ now.it >= 2 THEN Converge ELSE Iterate
SimSpec == Init /\ [][RNext]_vars
View == <<mem, now, used, Len(hist)>>
Emit == (Len(hist) < MaxHist) \/ PrintT("PROGRAM " \o ToJson(hist))
Stop == Len(hist) <= MaxHist
=============================================================================
