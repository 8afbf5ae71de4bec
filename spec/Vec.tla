-------------------------------- MODULE Vec --------------------------------
(***************************************************************************)
(* Vectors <<x, y, z>>, 3x3 rotations and rigid 4x4 frames (sequences of   *)
(* rows) over the fixed-point reals of Num.                                *)
(***************************************************************************)
EXTENDS Num, Sequences

ZERO == << 0, 0 >>
ONE  == FromInt(1)
TWO  == FromInt(2)
HALF == << 512, 0 >>
Eps(k) == IF k >= 10 THEN << 0, 2^(40 - k) >> ELSE << 2^(10 - k), 0 >>   \* 2^-k, 0 <= k <= 40

Close(a, b, tol) == Le(Abs(Sub(a, b)), tol)
Gt(a, b) == Lt(b, a)
Ge(a, b) == Le(b, a)
Sq(a) == Mul(a, a)
\* |a - b| <= tol * max(1, |a|, |b|)
CloseR(a, b, tol) == \/ a = b
                     \/ Close(a, b, Mul(tol, MaxN(ONE, MaxN(Abs(a), Abs(b)))))

V0 == << ZERO, ZERO, ZERO >>
VAdd(a, b) == << Add(a[1], b[1]), Add(a[2], b[2]), Add(a[3], b[3]) >>
VSub(a, b) == << Sub(a[1], b[1]), Sub(a[2], b[2]), Sub(a[3], b[3]) >>
VNeg(a)    == << Opp(a[1]), Opp(a[2]), Opp(a[3]) >>
VScale(s, a) == << Mul(s, a[1]), Mul(s, a[2]), Mul(s, a[3]) >>
Dot(a, b)  == Add(Mul(a[1], b[1]), Add(Mul(a[2], b[2]), Mul(a[3], b[3])))
Cross(a, b) == << Sub(Mul(a[2], b[3]), Mul(a[3], b[2])),
                  Sub(Mul(a[3], b[1]), Mul(a[1], b[3])),
                  Sub(Mul(a[1], b[2]), Mul(a[2], b[1])) >>
Norm2(a)   == Dot(a, a)
Norm(a)    == Sqrt(Norm2(a))
Unit(a)    == LET n == Norm(a) IN << Div(a[1], n), Div(a[2], n), Div(a[3], n) >>
VClose(a, b, tol) == /\ Close(a[1], b[1], tol)
                     /\ Close(a[2], b[2], tol)
                     /\ Close(a[3], b[3], tol)
IsUnit(a, tol) == Close(Norm2(a), ONE, tol)
At(v, t, d) == VAdd(v, VScale(t, d))            \* the point v + t d

(* Frames: 4x4, last row 0 0 0 1; the rotation's columns are the local axes *)
Org(f)      == << f[1][4], f[2][4], f[3][4] >>
Col(f, j)   == << f[1][j], f[2][j], f[3][j] >>
RotDir(f, d) == << Dot(<<f[1][1], f[1][2], f[1][3]>>, d),
                   Dot(<<f[2][1], f[2][2], f[2][3]>>, d),
                   Dot(<<f[3][1], f[3][2], f[3][3]>>, d) >>
ToWorld(f, p) == VAdd(Org(f), RotDir(f, p))
InvDir(f, d)  == << Dot(Col(f, 1), d), Dot(Col(f, 2), d), Dot(Col(f, 3), d) >>
ToLocal(f, p) == InvDir(f, VSub(p, Org(f)))

MEye == << << ONE, ZERO, ZERO, ZERO >>, << ZERO, ONE, ZERO, ZERO >>,
           << ZERO, ZERO, ONE, ZERO >>, << ZERO, ZERO, ZERO, ONE >> >>
MRow(r, m) == [j \in 1..4 |-> Add(Add(Mul(r[1], m[1][j]), Mul(r[2], m[2][j])),
                                  Add(Mul(r[3], m[3][j]), Mul(r[4], m[4][j])))]
MMul(a, b) == << MRow(a[1], b), MRow(a[2], b), MRow(a[3], b), MRow(a[4], b) >>
MClose(a, b, tol) == \A i \in 1..4 : \A j \in 1..4 : Close(a[i][j], b[i][j], tol)
MkFrame(x, y, z, o) == << << x[1], y[1], z[1], o[1] >>, << x[2], y[2], z[2], o[2] >>,
                          << x[3], y[3], z[3], o[3] >>, << ZERO, ZERO, ZERO, ONE >> >>
IsRigid(f, tol) ==
    /\ \A i \in 1..3 : IsUnit(Col(f, i), tol)
    /\ Close(Dot(Col(f, 1), Col(f, 2)), ZERO, tol)
    /\ VClose(Cross(Col(f, 1), Col(f, 2)), Col(f, 3), tol)
    /\ f[4] = << ZERO, ZERO, ZERO, ONE >>

SumSeq(s) == LET RECURSIVE go(_, _)
                 go(i, acc) == IF i > Len(s) THEN acc ELSE go(i + 1, Add(acc, s[i]))
             IN go(1, ZERO)
=============================================================================
