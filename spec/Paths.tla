-------------------------------- MODULE Paths --------------------------------
(***************************************************************************)
(* Tags derived from paths by patterns.  Texts are sequences of codes.       *)
(*   {name}  a field, a non-empty run of letters, digits and underscores     *)
(*   **      any text            *   any text without path separator         *)
(*   ?  [seq]  [!seq]            one character                               *)
(* From left to right each element takes the shortest text that lets the     *)
(* rest of the pattern match the whole rest of the name.                     *)
(***************************************************************************)
EXTENDS Globs, FiniteSets

SLASH == 47  DOT == 46  LBRACE == 123  RBRACE == 125  COLON == 58  UNDER == 95

IsDigit(c) == c \in 48..57
IsAlpha(c) == c \in 65..90 \/ c \in 97..122
IsWord(c)  == IsDigit(c) \/ IsAlpha(c) \/ c = UNDER
IsIdent(q) == q # <<>> /\ ~IsDigit(q[1]) /\ \A i \in DOMAIN q : IsWord(q[i])

-----------------------------------------------------------------------------
(* normalised paths: no empty, '.' or 'name/..' components *)

RECURSIVE Split(_, _)
Split(q, cur) == IF q = <<>> THEN <<cur>>
                 ELSE IF q[1] = SLASH THEN <<cur>> \o Split(Rest(q), <<>>)
                 ELSE Split(Rest(q), Append(cur, q[1]))

RECURSIVE Collapse(_, _, _)
Collapse(parts, abs, acc) ==
  IF parts = <<>> THEN acc
  ELSE LET x == Head(parts)  r == Tail(parts) IN
       CASE x = <<>> \/ x = <<DOT>> -> Collapse(r, abs, acc)
         [] x = <<DOT, DOT>> -> IF acc # <<>> /\ acc[Len(acc)] # <<DOT, DOT>>
                                THEN Collapse(r, abs, SubSeq(acc, 1, Len(acc) - 1))
                                ELSE IF abs THEN Collapse(r, abs, acc)
                                ELSE Collapse(r, abs, Append(acc, x))
         [] OTHER -> Collapse(r, abs, Append(acc, x))

RECURSIVE JoinBy(_)
JoinBy(parts) == IF parts = <<>> THEN <<>>
                 ELSE IF Len(parts) = 1 THEN parts[1]
                 ELSE parts[1] \o <<SLASH>> \o JoinBy(Tail(parts))

Normal(q) ==
  LET abs == q # <<>> /\ q[1] = SLASH
      r   == JoinBy(Collapse(Split(q, <<>>), abs, <<>>))
  IN IF abs THEN <<SLASH>> \o r ELSE IF r = <<>> THEN <<DOT>> ELSE r

-----------------------------------------------------------------------------
(* format texts: literals and fields *)

IndexOf(q, c) == LET s == {i \in DOMAIN q : q[i] = c}
                 IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j

\* fields of a text in order; a text with a lone brace is malformed
RECURSIVE Fields(_)
Fields(q) ==
  IF q = <<>> THEN <<>>
  ELSE IF q[1] = LBRACE
       THEN LET e == IndexOf(q, RBRACE)
            IN <<SubSeq(q, 2, e - 1)>> \o Fields(From(q, e + 1))
       ELSE Fields(Rest(q))

RECURSIVE WellFormed(_)
WellFormed(q) ==
  IF q = <<>> THEN TRUE
  ELSE IF q[1] = LBRACE
       THEN LET e == IndexOf(q, RBRACE)
            IN e > 0 /\ LBRACE \notin {q[i] : i \in 2..(e-1)} /\ WellFormed(From(q, e + 1))
       ELSE q[1] # RBRACE /\ WellFormed(Rest(q))

SetOf(q) == {q[i] : i \in DOMAIN q}

FieldsOK(q) == WellFormed(q) /\ \A i \in DOMAIN Fields(q) : IsIdent(Fields(q)[i])

\* a template filled with values val : name -> text
RECURSIVE Fill(_, _)
Fill(q, val) ==
  IF q = <<>> THEN <<>>
  ELSE IF q[1] = LBRACE
       THEN LET e == IndexOf(q, RBRACE) IN val[SubSeq(q, 2, e - 1)] \o Fill(From(q, e + 1), val)
       ELSE <<q[1]>> \o Fill(Rest(q), val)

-----------------------------------------------------------------------------
NoMatch == [ok |-> FALSE, f |-> <<>>]

RECURSIVE Shortest(_, _)          \* the match of pattern p on the whole of w
RECURSIVE Grow(_, _, _, _)        \* first k, k+1, ... characters taken by an element of kind
Shortest(p, w) ==
  IF p = <<>> THEN IF w = <<>> THEN [ok |-> TRUE, f |-> <<>>] ELSE NoMatch
  ELSE IF p[1] = LBRACE THEN Grow("field", p, w, 1)
  ELSE IF p[1] = STAR THEN (IF Len(p) >= 2 /\ p[2] = STAR THEN Grow("deep", p, w, 0)
                            ELSE Grow("level", p, w, 0))
  ELSE IF w = <<>> THEN NoMatch
  ELSE IF p[1] = QUEST THEN Shortest(Rest(p), Rest(w))
  ELSE IF p[1] = LBR /\ ClassEnd(p) > 0
       THEN IF InClass(w[1], p, ClassEnd(p)) THEN Shortest(From(p, ClassEnd(p) + 1), Rest(w)) ELSE NoMatch
  ELSE IF p[1] = w[1] THEN Shortest(Rest(p), Rest(w)) ELSE NoMatch

Grow(kind, p, w, k) ==
  IF k > Len(w) THEN NoMatch
  ELSE IF k > 0 /\ ((kind = "field" /\ ~IsWord(w[k])) \/ (kind = "level" /\ w[k] = SLASH)) THEN NoMatch
  ELSE LET e == IndexOf(p, RBRACE)
           rest == CASE kind = "field" -> From(p, e + 1)
                     [] kind = "deep"  -> From(p, 3)
                     [] OTHER          -> From(p, 2)
           m == Shortest(rest, From(w, k + 1))
       IN IF m.ok THEN (IF kind = "field"
                        THEN [ok |-> TRUE, f |-> <<<<SubSeq(p, 2, e - 1), SubSeq(w, 1, k)>>>> \o m.f]
                        ELSE m)
          ELSE Grow(kind, p, w, k + 1)

\* what tags_from_path(names, pattern, *templates) gives
Accepted(pattern, tpls) ==
  /\ FieldsOK(pattern)
  /\ \A i \in DOMAIN tpls : FieldsOK(tpls[i]) /\ SetOf(Fields(tpls[i])) \subseteq SetOf(Fields(pattern))

ValueOf(f) == [n \in {f[i][1] : i \in DOMAIN f} |-> LET i == CHOOSE i \in DOMAIN f : f[i][1] = n IN f[i][2]]

RECURSIVE Derive(_, _, _, _)
Derive(names, i, p, tpls) ==
  IF i > Len(names) THEN <<>>
  ELSE LET m == Shortest(p, Normal(names[i]))
           val == ValueOf(m.f)
       IN (IF m.ok THEN <<<<names[i], [k \in DOMAIN tpls |-> Fill(tpls[k], val)]>>>> ELSE <<>>)
          \o Derive(names, i + 1, p, tpls)

TagsFrom(names, pattern, tpls) == Derive(names, 1, Normal(pattern), tpls)
=============================================================================
