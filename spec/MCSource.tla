------------------------------ MODULE MCSource ------------------------------
(***************************************************************************)
(* Do the partitions tell a uniform sample from others?  Deterministic     *)
(* samples on a lattice of (area share, angle); the construction r = sqrt  *)
(* of the share must pass, the usual mistakes must not.                    *)
(***************************************************************************)
EXTENDS Source, IOUtils

M == 64
K == 64           \* angles
Thorough == "VERIF_FAMILY" \in DOMAIN IOEnv
I(n) == FromInt(n)
\* the angle 2 pi (j + 1/2) / K, by repeated turning from half a step
Half_ == << << 1022, 823073739 >>, << 50, 263387271 >> >>       \* cos, sin of pi / 64
Turn(a, h) == << Sub(Mul(a[1], h[1]), Mul(a[2], h[2])), Add(Mul(a[2], h[1]), Mul(a[1], h[2])) >>
RECURSIVE Angs(_)
Angs(q) == IF Len(q) = K THEN q ELSE Angs(TLCEval(Append(q, Turn(q[Len(q)], Turn(Half_, Half_)))))
A == TLCEval(Angs(<< Half_ >>))
\* every point has a share of its own: rings at M radii, each wound by one step of area
Share(j) == Div(I(2 * j - 1), I(2 * M * K))
Point(r, a) == << Mul(r, a[1]), Mul(r, a[2]) >>
Idx(j) == << 1 + ((j - 1) \div K), 1 + ((j - 1) % K) >>
Made(R(_), B(_)) == TLCEval([j \in 1..(M * K) |-> Point(R(j), A[B(Idx(j)[2])])])

VARIABLES how, ok
Good == Made(LAMBDA k : Sqrt(Share(k)), LAMBDA b : b)
SampleOf(h) ==
    CASE h = "good" -> Good
      [] h = "linear-radius" -> Made(Share, LAMBDA b : b)
      [] h = "half-turn" -> Made(LAMBDA k : Sqrt(Share(k)), LAMBDA b : 1 + (b \div 2))
      [] h = "too-wide" -> Made(LAMBDA k : Mul(Div(I(11), I(10)), Sqrt(Share(k))), LAMBDA b : b)
      [] h = "too-narrow" -> Made(LAMBDA k : Mul(Div(I(9), I(10)), Sqrt(Share(k))), LAMBDA b : b)
      [] h = "diamond" -> TLCEval([j \in 1..(M * K) |-> LET p == Good[j] IN << p[1], Mul(p[2], Div(I(4), I(5))) >>])
      [] h = "bare-rim" -> Made(LAMBDA k : Sqrt(Mul(Div(I(49), I(50)), Share(k))), LAMBDA b : b)
      [] h = "hole" -> Made(LAMBDA k : Sqrt(Add(Div(I(1), I(50)), Mul(Div(I(49), I(50)), Share(k)))), LAMBDA b : b)
Kinds == {"good", "bare-rim", "hole", "linear-radius", "half-turn", "too-wide", "too-narrow", "diamond"}
Init == how \in Kinds /\ ok = UniformDisc(SampleOf(how))
Next == UNCHANGED << how, ok >>
Spec == Init /\ [][Next]_<< how, ok >>
Tells == ok <=> how = "good"
\* a sample is related to itself, and one in regular order to its shift
Correlation == how = "good" => ~Unrelated(Good, Good) /\ ~Unrelated(Good, Shifted(Good, 1))
\* grids
Gridded == how = "good" =>
    LET g(n, w) == [k \in 1..(n * n) |-> << I((k - 1) \div n), Mul(w, I((k - 1) % n)), HALF >>]
        half(n) == Div(I(n), TWO)
        mid(n) == << half(n), half(n), HALF >>
        z == << ZERO, ZERO, ONE >>
    IN /\ \A n \in 1..4 : Grid(g(n, ONE), z, n, ONE, mid(n), half(n))
       /\ \A n \in 2..4 : ~Grid(g(n, TWO), z, n, ONE, mid(n), half(n))
       /\ \A n \in 1..4 : ~Grid(g(n, ONE), z, n, ONE, VAdd(mid(n), << ZERO, Eps(4), ZERO >>), half(n))
       /\ ~Grid(Append(g(2, ONE), << ZERO, ZERO, ZERO >>), z, 2, ONE, mid(2), half(2))
=============================================================================
