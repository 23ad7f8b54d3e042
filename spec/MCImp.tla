-------------------------------- MODULE MCImp --------------------------------
(* Laws of the impedance pipeline on all small coefficients: one electric,     *)
(* one magnetic and one remote channel, a few windows, prefilters and           *)
(* weightings.                                                                   *)
EXTENDS Impedances, TLC

CONSTANTS N, Coefs, Remote

CoefsDef == {<<0, 0>>, <<1, 0>>, <<0, 1>>}
CoefsDef2 == {<<1, 0>>, <<1, 1>>}
VARIABLES E, B, R, o      \* coefficients of each channel, options

Done == Len(R) = N
Table(S) == [k |-> "line", t |-> [i \in 1..Classes |-> IF i \in S THEN 1 ELSE 0]]
Clip(x) == IF x = 0 THEN <<[k |-> "none"]>> ELSE <<[k |-> "none"], [k |-> "clip", num |-> x, den |-> 4]>>
Opts == [tn |-> 1, td |-> 4, maxit |-> 3, eps |-> 0]

Init == E = <<>> /\ B = <<>> /\ R = <<>> /\ o \in [pf : {0, 1, 2}, wf : {0, 1}, rpf : IF Remote THEN {0, 1} ELSE {0}]
Next == /\ UNCHANGED o
        /\ \/ Len(E) < N /\ E' \in {Append(E, c) : c \in Coefs} /\ UNCHANGED <<B, R>>
           \/ Len(E) = N /\ B = <<>> /\ B' \in [1..N -> Coefs] /\ UNCHANGED <<E, R>>
           \/ B # <<>> /\ R = <<>> /\ (IF Remote THEN R' \in [1..N -> Coefs] ELSE R' = B) /\ UNCHANGED <<E, B>>
Spec == Init /\ [][Next]_<<E, B, R, o>>

\* samples of windows of 4 with these coefficients at a quarter of the rate
RECURSIVE SamplesOf(_)
SamplesOf(s) == IF s = <<>> THEN <<>> ELSE <<Head(s)[1], -Head(s)[2], 0, 0>> \o SamplesOf(Tail(s))
Freq == <<1, 1>>
Pf(x) == IF x = 0 THEN [k |-> "none"] ELSE Table({x + 1})
Request(chans, elec, mag, rem) ==
  [runs |-> <<[start |-> 0, rate |-> 4, n |-> 4 * N, y |-> [c \in DOMAIN chans |-> SamplesOf(chans[c])]]>>,
   cals |-> <<[c \in DOMAIN chans |-> <<1, 0>>]>>, noval |-> <<>>, elec |-> elec, mag |-> mag, rem |-> rem,
   nper |-> 1, on |-> 0, od |-> 1, win |-> <<>>, wfs |-> Clip(o.wf), rwfs |-> <<>>, pf |-> Pf(o.pf),
   rpf |-> IF o.rpf = 0 THEN [k |-> "same"] ELSE Pf(o.rpf), opts |-> Opts]
Q == Request(<<E, B, R>>, <<1>>, <<2>>, IF Remote THEN <<3>> ELSE <<>>)

\* the coefficients used are those of the channels
Fed(A) == (Done /\ A.out = "ok") => A.e = <<E>> /\ (~Remote => A.x = <<B>>)

\* windows rejected by a prefilter never reach the regression
Rejected == PRejects(Pf(o.pf), E)
Protected(A) ==
  (Done /\ A.out = "ok") =>
     /\ Rejected \subseteq A.rej[1]
     /\ \A s \in A.calls : s.kind = "w" /\ s.who = "w" /\ s.c.e # <<>> /\ ~Remote =>
           Len(s.c.e) <= N - Cardinality(Rejected)

\* without rejection, plain least squares
Same(z, num, den) == \A c \in DOMAIN num : z.num[c][1] * den = num[c][1] * z.den /\ z.num[c][2] * den = num[c][2] * z.den
Plain(A) ==
  (Done /\ A.out = "ok" /\ ~Remote /\ A.rej[1] = {} /\ o.wf = 0) =>
    LET z == LSE(E, <<B>>, Ones(N)) IN Same(A.z[1], z.num, z.den)
\* in any case, the least squares of the windows kept, weights being 0 or 1 here
KeptOnly(A) ==
  (Done /\ A.out = "ok" /\ ~Remote) =>
    LET z == LSE(Without(E, A.rej[1]), <<Without(B, A.rej[1])>>, Ones(N - Cardinality(A.rej[1])))
    IN Same(A.z[1], z.num, z.den)

\* exact data: the exact tensor, whatever is rejected
Tensors == {<<0, 1>>, <<2, 1>>}
ExactData(A) ==
  (Done /\ ~Remote /\ \E i \in 1..N : B[i] # Zero) => \A t \in Tensors :
    LET x == Entry([Q EXCEPT !.runs = <<[@[1] EXCEPT !.y[1] = SamplesOf([i \in 1..N |-> Mul(t, B[i])])]>>], Freq)
    IN x.out = "ok" => Same(x.z[1], <<t>>, 1)
ExactRemote(A) ==
  (Done /\ Remote) => \A t \in Tensors :
    LET x == Entry([Q EXCEPT !.runs = <<[@[1] EXCEPT !.y[1] = SamplesOf([i \in 1..N |-> Mul(t, R[i])]), !.y[2] = SamplesOf(R)]>>,
                             !.cals = <<<<<<1, 0>>, <<0, 1>>, <<1, 0>>>>>>], Freq)
    IN x.out = "ok" => Same(x.z[1], <<Mul(t, <<0, -1>>)>>, 1)

\* two stages: fields predicted from the remote, its rejections kept
TwoStages(A) ==
  (Done /\ Remote /\ A.out = "ok") =>
    /\ \A i \in 1..N : A.x[1][i] = Mul(A.T[1].num[1], R[i])
    /\ o.wf = 0 => PRejects(IF o.rpf = 0 THEN Pf(o.pf) ELSE Pf(o.rpf), B) \cup Rejected = A.rej[1]
    /\ PRejects(IF o.rpf = 0 THEN Pf(o.pf) ELSE Pf(o.rpf), B) \subseteq A.rej[1]
\* the local magnetic field as its own remote changes nothing
OwnRemote(A) ==
  (Done /\ ~Remote /\ o.pf = 0 /\ o.wf = 0 /\ A.out = "ok") =>
    LET x == Entry([Q EXCEPT !.rem = <<2>>], Freq)
    IN x.out = "ok" => Same(x.z[1], A.z[1].num, A.z[1].den) /\ x.rej = A.rej

\* only tags tell channels: any order, with others
Relabelled(A) ==
  Done => LET x == Entry(Request(<<R, B, <<>> \o B, E>>, <<4>>, <<2>>, IF Remote THEN <<1>> ELSE <<>>), Freq)
          IN x = A
\* what is not tagged does not matter, and no frequency without calibration is estimated
Bystander(A) == (Done /\ ~Remote) => Entry([Q EXCEPT !.runs = <<[@[1] EXCEPT !.y[3] = SamplesOf(E)]>>], Freq) = A
Uncalibrated(A) == Done => Entry([Q EXCEPT !.noval = <<Freq>>], Freq).out = "nowindow"
\* a failing prefilter fails the entry, and nothing is fed after it
Failing(A) == Done => LET x == Entry([Q EXCEPT !.pf = [k |-> "fail"]], Freq) IN
             (Remote /\ o.rpf # 0) \/ (x.out = "fail" /\ \A s \in x.calls : s.kind = "p")

Laws == Done => LET A == Entry(Q, Freq) IN
  /\ Fed(A) /\ Protected(A) /\ Plain(A) /\ KeptOnly(A) /\ ExactData(A) /\ ExactRemote(A) /\ TwoStages(A)
  /\ OwnRemote(A) /\ Relabelled(A) /\ Bystander(A) /\ Uncalibrated(A) /\ Failing(A)
=============================================================================
