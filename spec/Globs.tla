-------------------------------- MODULE Globs --------------------------------
(***************************************************************************)
(* Shell patterns on words, words being sequences of character codes.       *)
(*    *       any run of characters                                         *)
(*    ?       any one character                                             *)
(*    [seq]   one character of seq (ranges a-z allowed)                     *)
(*    [!seq]  one character not in seq                                      *)
(* an unclosed '[' stands for itself.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

STAR == 42   QUEST == 63   LBR == 91   RBR == 93   BANG == 33   DASH == 45

Rest(q) == SubSeq(q, 2, Len(q))
From(q, i) == SubSeq(q, i, Len(q))

(* position of the ']' closing the class opened at p[1], 0 if there is none.
   A ']' right after '[' or '[!' belongs to the class. *)
ClassEnd(p) ==
  LET b     == IF Len(p) >= 2 /\ p[2] = BANG THEN 3 ELSE 2
      first == IF Len(p) >= b /\ p[b] = RBR THEN b + 1 ELSE b
      c     == {i \in first..Len(p) : p[i] = RBR}
  IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j

\* does character x belong to the class body q (without '!')
RECURSIVE InBody(_, _)
InBody(x, q) ==
  IF q = <<>> THEN FALSE
  ELSE IF Len(q) >= 3 /\ q[2] = DASH
       THEN (q[1] <= x /\ x <= q[3]) \/ InBody(x, From(q, 4))
       ELSE x = q[1] \/ InBody(x, Rest(q))

InClass(x, p, e) ==
  IF p[2] = BANG THEN ~InBody(x, SubSeq(p, 3, e - 1)) ELSE InBody(x, SubSeq(p, 2, e - 1))

RECURSIVE Matches(_, _)
Matches(p, w) ==
  IF p = <<>> THEN w = <<>>
  ELSE CASE p[1] = STAR  -> Matches(Rest(p), w) \/ (w # <<>> /\ Matches(p, Rest(w)))
         [] p[1] = QUEST -> w # <<>> /\ Matches(Rest(p), Rest(w))
         [] p[1] = LBR   ->
              LET e == ClassEnd(p) IN
              IF e = 0 THEN w # <<>> /\ w[1] = LBR /\ Matches(Rest(p), Rest(w))
              ELSE w # <<>> /\ InClass(w[1], p, e) /\ Matches(From(p, e + 1), Rest(w))
         [] OTHER -> w # <<>> /\ w[1] = p[1] /\ Matches(Rest(p), Rest(w))
=============================================================================
