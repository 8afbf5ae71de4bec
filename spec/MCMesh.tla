------------------------------- MODULE MCMesh -------------------------------
(***************************************************************************)
(* Reference meshes pass, damaged ones do not: polar and cylindrical       *)
(* meshes with angular steps given as rational points of the circle.       *)
(***************************************************************************)
EXTENDS Mesh, TLC, IOUtils
I(n) == FromInt(n)
Q(n, d) == Div(I(n), I(d))
\* angular step (cos, sin), how many fit in a full turn (rounded up), and its length (rounded up)
Steps == << [c |-> Q(4, 5), s |-> Q(3, 5), n |-> 10, len |-> Q(65, 100)], [c |-> Q(12, 13), s |-> Q(5, 13), n |-> 16, len |-> Q(40, 100)] >>
RECURSIVE Turns(_, _, _)
Turns(q, st, n) == IF Len(q) >= n THEN q
    ELSE LET a == q[Len(q)] IN Turns(TLCEval(Append(q, << Sub(Mul(a[1], st.c), Mul(a[2], st.s)), Add(Mul(a[2], st.c), Mul(a[1], st.s)) >>)), st, n)
Dirs(st) == Turns(<< << ONE, ZERO >> >>, st, st.n)
Flatten(q) == LET RECURSIVE go(_) go(k) == IF k > Len(q) THEN << >> ELSE q[k] \o go(k + 1) IN go(1)
Polar(g, st, R, h, Z(_)) ==
    LET D == Dirs(st)
        nr == CHOOSE n \in 1..40 : Gt(Mul(I(n), h), R) /\ Le(Mul(I(n - 1), h), R)
        row(r) == [k \in 1..Len(D) |-> LET x == Mul(r, D[k][1]) y == Mul(r, D[k][2]) IN << x, y, Z(<< x, y >>) >>]
    IN Flatten([j \in 1..nr |-> row(Mul(I(j - 1), h))])
Barrel(g, st, R, H, h) ==
    LET D == Dirs(st)
        nz == CHOOSE n \in 2..60 : Ge(Mul(I(n - 1), h), H) /\ Lt(Mul(I(n - 2), h), H)
        row(z) == [k \in 1..Len(D) |-> << Mul(R, D[k][1]), Mul(R, D[k][2]), z >>]
    IN Flatten([j \in 1..nz |-> row(Sub(Mul(I(j - 1), Div(H, I(nz - 1))), Mul(HALF, H)))])
Surfs == << [k |-> "disc", p |-> << Q(5, 4) >>], [k |-> "dish", p |-> << TWO, HALF >>], [k |-> "fcyl", p |-> << ONE, Q(5, 2) >>] >>
H(x, y) == Mul(Steps[y].len, Surfs[x].p[1])
Ref(x, y) == LET g == Surfs[x] st == Steps[y] R == g.p[1] h == H(x, y)
             IN CASE g.k = "disc" -> Polar(g, st, R, h, LAMBDA p : ZERO)
                  [] g.k = "dish" -> Polar(g, st, R, h, LAMBDA p : Div(Add(Sq(p[1]), Sq(p[2])), Mul(FOUR, g.p[2])))
                  [] g.k = "fcyl" -> Barrel(g, st, R, g.p[2], h)
\* sample points
Lat == -5..5
Samples(x) == LET g == Surfs[x] R == g.p[1]
              IN IF g.k = "fcyl"
                 THEN { << Mul(R, u[1]), Mul(R, u[2]), Mul(Q(z, 10), g.p[2]) >> :
                          u \in { << Q(a * a - b * b, a * a + b * b), Q(2 * a * b, a * a + b * b) >> : a \in 0..4, b \in -4..4 \ {0} }, z \in Lat }
                 ELSE { LET a == Mul(Q(p[1], 5), R) b == Mul(Q(p[2], 5), R)
                        IN << a, b, IF g.k = "disc" THEN ZERO ELSE Div(Add(Sq(a), Sq(b)), Mul(FOUR, g.p[2])) >> : p \in Lat \X Lat }
Fit(x, y, P) == /\ \A k \in 1..Len(P) : OnIt(Surfs[x], P[k]) /\ Outline(Surfs[x], P[k], H(x, y))
                /\ \A l \in Samples(x) : OfSurface(Surfs[x], l) => Spanned(Surfs[x], P, l, H(x, y))
Damage(how, x, y, P) ==
    CASE how = "none" -> P
      [] how = "half" -> SelectSeq(P, LAMBDA l : Gt(l[2], Opp(Eps(20))))
      [] how = "no-end" -> SelectSeq(P, LAMBDA l : IF Surfs[x].k = "fcyl" THEN Lt(l[3], ZERO) ELSE Lt(Rho(l), Mul(HALF, Surfs[x].p[1])))
      [] how = "lifted" -> [k \in 1..Len(P) |-> << P[k][1], P[k][2], Add(P[k][3], IF Surfs[x].k = "fcyl" THEN TWO ELSE Q(1, 100)) >>]
      [] how = "scaled" -> [k \in 1..Len(P) |-> VScale(FromInt(4), P[k])]
VARIABLES x, y, how, ok
Init == x \in 1..Len(Surfs) /\ y \in 1..Len(Steps) /\ how \in {"none", "half", "no-end", "lifted", "scaled"}
        /\ ok = Fit(x, y, TLCEval(Damage(how, x, y, TLCEval(Ref(x, y)))))
Next == UNCHANGED << x, y, how, ok >>
Spec == Init /\ [][Next]_<< x, y, how, ok >>
Tells == ok <=> how = "none"
=============================================================================
