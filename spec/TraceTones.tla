------------------------------ MODULE TraceTones ------------------------------
(***************************************************************************)
(* Events: coefficients e.co[channel][window] of a signal set made of tones,     *)
(* seen through a Slepian taper.                                                  *)
(***************************************************************************)
EXTENDS Tones, TraceBase

Length(e, i) == WindowLength(e.runs[i], e.nper)
Step(e, i) == Shift(Length(e, i), e.on, e.od)
Windows(e, i) == Count(e.runs[i].n, Length(e, i), Step(e, i))
RECURSIVE Before(_, _)
Before(e, i) == IF i = 1 THEN 0 ELSE Before(e, i - 1) + Windows(e, i - 1)

Accepted(e) == \A i \in DOMAIN e.runs : RunOK(e.runs[i], e.nper, e.on, e.od)

TonesExpected(e) ==
  IF ~Accepted(e) THEN "refused"
  ELSE [c \in DOMAIN e.runs[1].tones |-> [i \in DOMAIN e.runs |->
         IF ~Separated(e.runs[i], e.runs[i].tones[c], Length(e, i), e.tau2) THEN <<"any">>
         ELSE [k \in 1..Windows(e, i) |-> Heard(e.runs[i], e.runs[i].tones[c], (k - 1) * Step(e, i))]]]

TonesJudge(e) ==
  IF e.ok # Accepted(e) THEN {<<"C25", IF e.ok THEN "accepted" ELSE "refused">>}
  ELSE IF ~e.ok THEN {}
  ELSE IF \E c \in DOMAIN e.co : Len(e.co[c]) # Before(e, Len(e.runs) + 1) THEN {<<"C25", "windows">>}
  ELSE IF \E c \in DOMAIN e.co : \E i \in DOMAIN e.runs :
            LET r == e.runs[i]
                tones == r.tones[e.chan[c]]
            IN /\ Separated(r, tones, Length(e, i), e.tau2)
               /\ \E k \in 1..Windows(e, i) :
                    ~ToneOK(e.co[c][Before(e, i) + k], r.cals[e.chan[c]], r, tones, (k - 1) * Step(e, i), e.tau2)
       THEN {<<"C25", "coefficients">>}
  ELSE {}
=============================================================================
