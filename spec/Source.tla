------------------------------- MODULE Source -------------------------------
(***************************************************************************)
(* Light sources, and what "uniformly spread" means for a finite sample.   *)
(*                                                                         *)
(* A sample is a sequence of points <<x, y>> of the unit disc.  Uniform:   *)
(* in every cell of several partitions of the disc into cells of known     *)
(* share p, the count of n points is within SIGMAS standard deviations of  *)
(* n p.  Cells are compared with a margin where p is small.                *)
(***************************************************************************)
EXTENDS Vec, FiniteSets, TLC

SIGMAS == FromInt(7)
\* |k - n p| <= SIGMAS sqrt(n p (1 - p)) + 4,  p = num / den
CountOK(k, n, num, den) ==
    LET p == Div(FromInt(num), FromInt(den))
        var == Mul(Mul(FromInt(n), p), Sub(ONE, p))
    IN Le(Abs(Sub(FromInt(k), Mul(FromInt(n), p))), Add(Mul(SIGMAS, Sqrt(var)), FromInt(4)))

\* ring 1..m (equal areas; m + 1 if outside by more than rounding), octant 1..8
Ring(p, m) == LET r == Mul(FromInt(m), Add(Sq(p[1]), Sq(p[2])))
                  c == { k \in 1..m : Lt(r, FromInt(k)) }
              IN IF c # {} THEN CHOOSE k \in c : \A j \in c : k <= j
                 ELSE IF Lt(r, Add(FromInt(m), Eps(10))) THEN m ELSE m + 1
Octant(p) == 1 + (IF Gt(p[1], ZERO) THEN 1 ELSE 0) + (IF Gt(p[2], ZERO) THEN 2 ELSE 0) + (IF Gt(Abs(p[1]), Abs(p[2])) THEN 4 ELSE 0)
Quadrant(p) == 1 + (IF Gt(p[1], ZERO) THEN 1 ELSE 0) + (IF Gt(p[2], ZERO) THEN 2 ELSE 0)

\* counts of the values of a sequence of cell numbers 1..m
Counts(cs, m) == [c \in 1..m |-> Cardinality({ j \in 1..Len(cs) : cs[j] = c })]
Even(cs, m) == LET k == TLCEval(Counts(cs, m)) IN \A c \in 1..m : CountOK(k[c], Len(cs), 1, m)
Cells(S, F(_)) == TLCEval([j \in 1..Len(S) |-> F(S[j])])
Joint(A, B, mb) == TLCEval([j \in 1..Len(A) |-> (A[j] - 1) * mb + B[j]])

\* moments: x^2 + y^2 has mean 1/2 and variance 1/12; x, y and the products xy, x^2 - y^2 have mean 0, variances 1/4, 1/24, 1/6
RECURSIVE SumFrom(_, _, _)
SumFrom(S, a, b) == IF a > b THEN ZERO ELSE IF a = b THEN S[a]
                    ELSE LET m == (a + b) \div 2 IN Add(SumFrom(S, a, m), SumFrom(S, m + 1, b))
Mean(S) == Div(SumFrom(S, 1, Len(S)), FromInt(Len(S)))
MeanOK(m, mean, var, n) == Le(Abs(Sub(m, mean)), Mul(SIGMAS, Sqrt(Div(var, FromInt(n)))))
RatN(a, b) == Div(FromInt(a), FromInt(b))
Moments(S) ==
    LET n == Len(S)
        M(F(_)) == Mean(TLCEval([j \in 1..n |-> F(S[j])]))
    IN /\ MeanOK(M(LAMBDA p : Add(Sq(p[1]), Sq(p[2]))), HALF, RatN(1, 12), n)
       /\ MeanOK(M(LAMBDA p : p[1]), ZERO, RatN(1, 4), n) /\ MeanOK(M(LAMBDA p : p[2]), ZERO, RatN(1, 4), n)
       /\ MeanOK(M(LAMBDA p : Mul(p[1], p[2])), ZERO, RatN(1, 24), n)
       /\ MeanOK(M(LAMBDA p : Sub(Sq(p[1]), Sq(p[2]))), ZERO, RatN(1, 6), n)
AllDifferent(S) == Cardinality({ S[j] : j \in 1..Len(S) }) = Len(S)

\* r^2 is uniform in 0..1: of n points, none in a part of share 30/n has probability e^-30
Fills(S) == LET x == RatN(30, Len(S))
            IN /\ \E j \in 1..Len(S) : Gt(Add(Sq(S[j][1]), Sq(S[j][2])), Sub(ONE, x))
               /\ \E j \in 1..Len(S) : Lt(Add(Sq(S[j][1]), Sq(S[j][2])), x)
UniformDisc(S) ==
    LET r16 == Cells(S, LAMBDA p : Ring(p, 16))
        r4 == TLCEval([j \in 1..Len(S) |-> (r16[j] + 3) \div 4])
        o == Cells(S, Octant)
    IN (\A j \in 1..Len(S) : r16[j] <= 16) /\ Even(r16, 16) /\ Even(o, 8) /\ Even(Joint(r4, o, 8), 32)
       /\ (Len(S) >= 500 => Moments(S) /\ Fills(S))
\* two samples of the same length are independent of each other
Unrelated(S, T) ==
    LET rs == Cells(S, LAMBDA p : Ring(p, 4))  rt == Cells(T, LAMBDA p : Ring(p, 4))
        qs == Cells(S, Quadrant)  qt == Cells(T, Quadrant)
    IN Even(Joint(rs, rt, 4), 16) /\ Even(Joint(qs, qt, 4), 16) /\ Even(Joint(rs, qt, 4), 16) /\ Even(Joint(qs, rt, 4), 16)
Shifted(S, k) == TLCEval([j \in 1..Len(S) |-> S[1 + ((j - 1 + k) % Len(S))]])

\* two axes perpendicular to d
Side(d) == LET k == IF Lt(Abs(d[1]), HALF) THEN << ONE, ZERO, ZERO >> ELSE << ZERO, ONE, ZERO >>
               x == Unit(Cross(d, k))
           IN << x, Cross(d, x) >>
\* where a vector w lies in the plane perpendicular to d, in units of len
Across(sd, w, len) == << Div(Dot(w, sd[1]), len), Div(Dot(w, sd[2]), len) >>

(* A disc source: centre c, direction d, radius R, half-angle with cosine ca, sine sa *)
OnDisc(v, c, d, R) == Close(Dot(VSub(v, c), d), ZERO, Mul(Eps(26), MaxN(ONE, MaxN(R, Norm(c))))) /\ Le(Norm(VSub(v, c)), Add(R, Mul(Eps(26), MaxN(ONE, MaxN(R, Norm(c))))))
\* both: the cosine says little about a narrow cone, the sine little about a wide one
InCone(u, d, ca, sa) == Ge(Dot(u, d), Sub(ca, Eps(30))) /\ (Gt(ca, HALF) => Le(Norm(Cross(u, d)), Add(sa, Eps(27))))

(* A square source: exactly the points corner + i a + j b, 0 <= i, j < side, where a and b are perpendicular steps of length h *)
Grid(V, d, side, h, c, w) ==
    LET n == Len(V)
        near(p) == { k \in 1..n : Close(Norm(VSub(V[k], p)), h, Mul(h, Eps(16))) }
        tol == Mul(h, Eps(14))
        \* a corner: exactly two neighbours
        corner == { k \in 1..n : Cardinality(near(V[k])) = 2 }
        \* the corner the grid starts from: half a width down along both axes
        start == { k \in corner : \E x, y \in near(V[k]) : x # y
                     /\ VClose(VAdd(V[k], VScale(Div(w, h), VAdd(VSub(V[x], V[k]), VSub(V[y], V[k])))), c, MaxN(tol, Mul(w, Eps(16)))) }
    IN IF side = 1 THEN n = 1 /\ CloseR(Norm(VSub(V[1], c)), Mul(w, Sqrt(TWO)), Eps(20))
       ELSE /\ n = side * side /\ start # {}
            /\ LET k == CHOOSE x \in start : TRUE
                   nb == near(V[k])
                   x == CHOOSE y \in nb : TRUE
                   y == CHOOSE z \in nb : z # x
                   a == VSub(V[x], V[k])  b == VSub(V[y], V[k])
               IN /\ Close(Dot(a, b), ZERO, Mul(h, tol))
                  /\ \A p \in 0..(side - 1) : \A q \in 0..(side - 1) :
                       LET u == VAdd(V[k], VAdd(VScale(FromInt(p), a), VScale(FromInt(q), b)))
                       IN \E m \in 1..n : VClose(V[m], u, tol)
=============================================================================
