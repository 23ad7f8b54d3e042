------------------------------- MODULE MCStats -------------------------------
(* Laws of Statistics on all small outputs and inputs: blocks, coherences,    *)
(* rejections, errors.                                                         *)
EXTENDS Statistics, TLC

CONSTANTS N, Q, Values, Imag

VARIABLES e, b

C == Values \X Imag
Init == e = <<>> /\ b = <<>>
Next == \/ Len(e) < N /\ b = <<>> /\ e' \in {Append(e, c) : c \in C} /\ UNCHANGED b
        \/ Len(e) >= Q /\ e # <<>> /\ Len(b) < Q /\ b' \in {Append(b, f) : f \in [1..Len(e) -> C]} /\ UNCHANGED e
Spec == Init /\ [][Next]_<<e, b>>

Ready == Len(b) = Q
n == Len(e)
w == Ones(n)
Eq(x, y) == x[1] * y[2] = y[1] * x[2]
Leq(x, y) == x[1] * y[2] <= y[1] * x[2]
Twice(s) == [i \in DOMAIN s |-> Scale(2, s[i])]
Turned(s) == [i \in DOMAIN s |-> Mul(<<0, 1>>, s[i])]
Back(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Singular == Det(Cross(b, w))[1] = 0

\* blocks are consecutive, cover everything once, and have at least the requested size where possible
BlocksRight ==
  Ready => \A size \in 1..(N + 1) :
    LET bl == Blocks(n, size) IN
    /\ bl[1][1] = 1 /\ bl[Len(bl)][2] = n
    /\ \A j \in 1..(Len(bl) - 1) : bl[j + 1][1] = bl[j][2] + 1 /\ bl[j][2] - bl[j][1] + 1 = size
    /\ \A j \in DOMAIN bl : bl[j][2] - bl[j][1] + 1 >= (IF size < n THEN size ELSE n)
    /\ bl[Len(bl)][2] - bl[Len(bl)][1] + 1 < 2 * size

\* the part of the energy explained, between 0 and 1
Coherent ==
  Ready => LET c == CoherenceSquare(e, b)
               r == ResidualEnergy(e, b, w)
           IN IF Singular \/ Energy(e, w) = 0 THEN c[2] = 0
              ELSE /\ 0 <= c[1] /\ c[1] <= c[2]
                   /\ (c[1] = c[2]) <=> (r.num = 0)
                   /\ Eq(<<c[2] - c[1], c[2]>>, <<r.num, r.den * Energy(e, w)>>)
                   \* whatever the units, phases and order of windows and inputs
                   /\ Eq(c, CoherenceSquare(Twice(e), b)) /\ Eq(c, CoherenceSquare(Turned(e), b))
                   /\ Eq(c, CoherenceSquare(e, [b EXCEPT ![1] = Twice(@)]))
                   /\ Eq(c, CoherenceSquare(e, [b EXCEPT ![Q] = Turned(@)]))
                   /\ Eq(c, CoherenceSquare(Back(e), [q \in DOMAIN b |-> Back(b[q])]))
                   /\ Eq(c, CoherenceSquare(e, Back(b)))
                   \* more inputs explain more
                   /\ Q > 1 /\ Det(Cross(<<b[1]>>, w))[1] # 0 => Leq(CoherenceSquare(e, <<b[1]>>), c)

Bounds == {<<0, 1>>, <<1, 3>>, <<1, 2>>, <<3, 5>>, <<1, 1>>}
Rejections ==
  Ready => LET c == CoherenceSquare(e, b) IN
    c[2] # 0 =>
      /\ Verdict(<<0, 1>>, <<1, 1>>, c) = "in"
      \* narrower bounds reject more
      /\ \A lo, hi, lo2, hi2 \in Bounds :
           Leq(lo2, lo) /\ Leq(hi, hi2) /\ Verdict(lo2, hi2, c) = "out" => Verdict(lo, hi, c) = "out"
      /\ \A m \in Bounds : m \notin {<<0, 1>>, <<1, 1>>} =>
           ~(Verdict(m, <<1, 1>>, c) = "in" /\ Verdict(<<0, 1>>, m, c) = "in")

Error(x, y, q, k) == ErrorSquare(x, y, LSE(x, y, Ones(Len(x))), q, k)
Errors ==
  (Ready /\ ~Singular /\ n > Q) => \A q \in 1..Q :
    LET r == Error(e, b, q, 0) IN
    /\ r[1] >= 0 /\ r[2] > 0
    /\ (r[1] = 0) <=> (ResidualEnergy(e, b, w).num = 0)
    /\ Eq(Error(Twice(e), b, q, 0), <<4 * r[1], r[2]>>)
    /\ Eq(Error(e, [p \in DOMAIN b |-> Twice(b[p])], q, 0), <<r[1], 4 * r[2]>>)
    /\ Eq(Error(Turned(e), b, q, 0), r)
    /\ Eq(Error(Back(e), [p \in DOMAIN b |-> Back(b[p])], q, 0), r)
    /\ Eq(Error(e, Back(b), Q + 1 - q, 0), r)
    \* rejections make it larger
    /\ \A k \in 1..(n - 1) : Leq(r, Error(e, b, q, k)) /\ Leq(Error(e, b, q, k - 1), Error(e, b, q, k))
    \* any other estimate has a larger one
    /\ LET z == LSE(e, b, w)
           other == [z EXCEPT !.num[q] = Add(@, <<z.den, 0>>)]
       IN Leq(r, ErrorSquare(e, b, other, q, 0))
=============================================================================
