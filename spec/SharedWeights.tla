---------------------------- MODULE SharedWeights ----------------------------
(***************************************************************************)
(* Weighting objects shared by successive estimations.                         *)
(* An object of kind                                                            *)
(*   "huber"    looks at the current residuals only                              *)
(*   "thomson"  keeps the residual scale of iteration 0 of the step it serves      *)
(*   "bounded"  keeps what it answered at the previous iteration, and asks an       *)
(*              inner object                                                       *)
(* Estimations run one after the other; each may stop anywhere: interrupted, not    *)
(* converged, or done.  Values are terms telling what they were computed from, so    *)
(* that "depends only on its own inputs" is equality with the term of a fresh object.  *)
(* Now and then an object is called directly, out of any estimation.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Kind,      \* object -> kind
          Inner,     \* object -> object asked by a bounded one
          Chains,    \* set of sequences of objects
          Data,      \* data sets
          MaxIt, MaxHist,
          Reset      \* FALSE: a design where iteration 0 does not renew the state

VARIABLES mem,       \* object -> what it keeps
          now,       \* the estimation under way, or Idle
          used,      \* last <<object's answer, answer of a fresh object>>
          hist

vars == <<mem, now, used, hist>>
Idle == [d |-> "", c |-> <<>>, pos |-> 0, it |-> 0]
Nil == <<"nil">>

\* residuals of data d at step pos, iteration it
R(d, pos, it) == <<"res", d, pos, it>>

\* what a fresh object answers at iteration it of a step
RECURSIVE Pure(_, _, _, _)
Pure(o, d, pos, it) ==
  CASE Kind[o] = "huber"   -> <<"huber", R(d, pos, it)>>
    [] Kind[o] = "thomson" -> <<"thomson", R(d, pos, 0), R(d, pos, it)>>
    [] Kind[o] = "bounded" -> <<"bounded", Pure(Inner[o], d, pos, it),
                                IF it = 0 THEN Nil ELSE Pure(o, d, pos, it - 1)>>

\* answers of the objects with memory m: [w |-> answer, m |-> memory afterwards]
RECURSIVE Ask(_, _, _, _, _)
Ask(o, m, d, pos, it) ==
  CASE Kind[o] = "huber" -> [w |-> <<"huber", R(d, pos, it)>>, m |-> m]
    [] Kind[o] = "thomson" ->
         LET s == IF it = 0 /\ (Reset \/ m[o] = Nil) THEN R(d, pos, 0) ELSE m[o]
         IN [w |-> <<"thomson", s, R(d, pos, it)>>, m |-> [m EXCEPT ![o] = s]]
    [] Kind[o] = "bounded" ->
         LET a == Ask(Inner[o], m, d, pos, it)
             w == <<"bounded", a.w, IF it = 0 /\ Reset THEN Nil ELSE m[o]>>
         IN [w |-> w, m |-> [a.m EXCEPT ![o] = w]]

Init == mem = [o \in DOMAIN Kind |-> Nil] /\ now = Idle /\ used = <<Nil, Nil>> /\ hist = <<>>

Begin(d, c) ==
  /\ now = Idle /\ Len(hist) < MaxHist
  /\ now' = [d |-> d, c |-> c, pos |-> 1, it |-> 0]
  /\ UNCHANGED <<mem, used, hist>>

End(how) == /\ now' = Idle
            /\ hist' = Append(hist, [d |-> now.d, c |-> now.c, how |-> how, pos |-> now.pos, it |-> now.it])

Iterate ==
  /\ now # Idle /\ now.it < MaxIt
  /\ LET o == now.c[now.pos]
         a == Ask(o, mem, now.d, now.pos, now.it)
     IN /\ used' = <<a.w, Pure(o, now.d, now.pos, now.it)>>
        /\ mem' = a.m
  /\ now' = [now EXCEPT !.it = @ + 1]
  /\ UNCHANGED hist

\* at least two iterations are needed to see the change
Converge ==
  /\ now # Idle /\ now.it >= 2
  /\ UNCHANGED <<mem, used>>
  /\ IF now.pos < Len(now.c) THEN now' = [now EXCEPT !.pos = @ + 1, !.it = 0] /\ UNCHANGED hist
     ELSE End("done")

GiveUp    == now # Idle /\ now.it = MaxIt /\ End("nonconv") /\ UNCHANGED <<mem, used>>
Interrupt == now # Idle /\ End("interrupt") /\ UNCHANGED <<mem, used>>

Poke(o, d, it) ==
  /\ now = Idle /\ Len(hist) < MaxHist
  /\ mem' = Ask(o, mem, d, 0, it).m
  /\ hist' = Append(hist, [d |-> d, c |-> <<o>>, how |-> "poke", pos |-> 0, it |-> it])
  /\ UNCHANGED <<now, used>>

Next == \/ \E d \in Data, c \in Chains : Begin(d, c)
        \/ Iterate \/ Converge \/ GiveUp \/ Interrupt
        \/ \E o \in DOMAIN Kind, d \in Data, it \in {0, 1} : Poke(o, d, it)

Spec == Init /\ [][Next]_vars

\* every answer given within an estimation is the one of a fresh object
OwnAnswers == used[1] = used[2]
=============================================================================
