----------------------------- MODULE MCSpatial -----------------------------
(***************************************************************************)
(* What the specified motions satisfy: chains of turns about lattice axes  *)
(* by rational angles.                                                     *)
(***************************************************************************)
EXTENDS Spatial, IOUtils

Thorough == "VERIF_FAMILY" \in DOMAIN IOEnv /\ IOEnv.VERIF_FAMILY = "t"
L == IF Thorough THEN -2..2 ELSE -1..1
I(n) == FromInt(n)
Axes == { Unit(<< I(x), I(y), I(z) >>) : x \in L, y \in L, z \in L } \ { Unit(V0) }
Angle(m, n) == << Div(I(m * m - n * n), I(m * m + n * n)), Div(I(2 * m * n), I(m * m + n * n)) >>    \* rational points of the circle
Angles == { Angle(m, n) : m \in 0..3, n \in {-2, -1, 1, 3} }
T == Eps(30)

VARIABLES u, a, b
Init == u \in Axes /\ a \in Angles /\ b \in Angles
Next == UNCHANGED << u, a, b >>
Spec == Init /\ [][Next]_<< u, a, b >>

R(x) == RotAbout(u, x[1], x[2])
Rigid == Proper(R(a), T)
Fixed == VClose(RApply(R(a), u), u, T)
\* turning by a then b is turning by their sum
Sums == RClose(RMul(R(b), R(a)), RotAbout(u, Sub(Mul(a[1], b[1]), Mul(a[2], b[2])), Add(Mul(a[1], b[2]), Mul(a[2], b[1]))), T)
\* right-handed: a vector p perpendicular to u goes to c p + s (u x p)
Hand == LET p == Unit(Cross(u, IF Lt(Abs(u[1]), HALF) THEN XA ELSE YA))
        IN VClose(RApply(R(a), p), VAdd(VScale(a[1], p), VScale(a[2], Cross(u, p))), T)
Pointing == PointsTo(ToZ(u), u, T)
Names == /\ RClose(RotAbout(XA, a[1], a[2]), << << ONE, ZERO, ZERO >>, << ZERO, a[1], Opp(a[2]) >>, << ZERO, a[2], a[1] >> >>, T)
         /\ RClose(RotAbout(YA, a[1], a[2]), << << a[1], ZERO, a[2] >>, << ZERO, ONE, ZERO >>, << Opp(a[2]), ZERO, a[1] >> >>, T)
         /\ RClose(RotAbout(ZA, a[1], a[2]), << << a[1], Opp(a[2]), ZERO >>, << a[2], a[1], ZERO >>, << ZERO, ZERO, ONE >> >>, T)
=============================================================================
