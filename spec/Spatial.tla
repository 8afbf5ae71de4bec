------------------------------ MODULE Spatial ------------------------------
(***************************************************************************)
(* The rigid motions the helper functions are named after.  Angles enter   *)
(* as cosine and sine.                                                     *)
(***************************************************************************)
EXTENDS Vec

\* rotation by the angle (c, s), right-handed about the unit vector u: rows of the matrix
RotAbout(u, c, s) ==
    LET w == Sub(ONE, c)
        e(a, b) == Mul(Mul(u[a], u[b]), w)
    IN << << Add(e(1, 1), c), Sub(e(1, 2), Mul(u[3], s)), Add(e(1, 3), Mul(u[2], s)) >>,
          << Add(e(2, 1), Mul(u[3], s)), Add(e(2, 2), c), Sub(e(2, 3), Mul(u[1], s)) >>,
          << Sub(e(3, 1), Mul(u[2], s)), Add(e(3, 2), Mul(u[1], s)), Add(e(3, 3), c) >> >>
Homog(r, t) == << r[1] \o << t[1] >>, r[2] \o << t[2] >>, r[3] \o << t[3] >>, << ZERO, ZERO, ZERO, ONE >> >>

XA == << ONE, ZERO, ZERO >>
YA == << ZERO, ONE, ZERO >>
ZA == << ZERO, ZERO, ONE >>
AxisOf(op) == IF op = "rotx" THEN XA ELSE IF op = "roty" THEN YA ELSE ZA

RClose(a, b, tol) == \A i \in 1..3 : \A j \in 1..3 : Close(a[i][j], b[i][j], tol)
RCol(r, j) == << r[1][j], r[2][j], r[3][j] >>
RApply(r, v) == << Dot(r[1], v), Dot(r[2], v), Dot(r[3], v) >>
RMul(a, b) == [i \in 1..3 |-> [j \in 1..3 |-> Dot(a[i], RCol(b, j))]]
Proper(r, tol) == /\ \A j \in 1..3 : IsUnit(RCol(r, j), tol)
                  /\ Close(Dot(RCol(r, 1), RCol(r, 2)), ZERO, tol)
                  /\ VClose(Cross(RCol(r, 1), RCol(r, 2)), RCol(r, 3), tol)

\* a frame whose Z axis is d and whose X axis is horizontal
PointsTo(r, d, tol) == Proper(r, tol) /\ VClose(RCol(r, 3), d, tol) /\ Close(r[3][1], ZERO, tol)
ToZ(d) == LET x == IF d[1] = ZERO /\ d[2] = ZERO THEN XA ELSE Unit(<< d[2], Opp(d[1]), ZERO >>)
              y == Cross(d, x)
          IN << << x[1], y[1], d[1] >>, << x[2], y[2], d[2] >>, << x[3], y[3], d[3] >> >>
=============================================================================
