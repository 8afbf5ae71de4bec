------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* The surfaces, as sets of points, and where a ray meets them.            *)
(*                                                                         *)
(* A surface g is [k |-> kind, p |-> parameters] (plus b for a bounding    *)
(* volume), placed at a world frame f.  In local coordinates it is the set *)
(* of the points with F(g, l) = 0 that are within its outline.             *)
(*   plane                         rect  w, h         disc  R              *)
(*   tri   x1, y1, x2, y2 (third corner: the origin)                       *)
(*   sphere R    hemi R (z <= 0)   cut R (within b)                        *)
(*   cyl R       fcyl R, h         parab a, b: z = (x/a)^2 + (y/b)^2       *)
(*   dish R, f   hex R, f          (focal length f)                        *)
(* Arithmetic has limited precision, so answers are "T", "F" or "?" (too   *)
(* close to call); only sure answers are held against the code.            *)
(***************************************************************************)
EXTENDS Vec, FiniteSets

BMARG == Eps(16)       \* margin at outlines
PMARG == Eps(18)       \* margin at the ray's start (the engine's own is 1e-6)
ZMARG == Eps(21)       \* a hit closer than this is the point the ray starts from
TTOL  == Eps(17)       \* tolerance of distances

Flat(g) == g.k \in {"plane", "rect", "disc", "tri"}

And3(a, b) == IF a = "F" \/ b = "F" THEN "F" ELSE IF a = "?" \/ b = "?" THEN "?" ELSE "T"
Less3(x, lim, m) == IF Lt(x, Sub(lim, m)) THEN "T" ELSE IF Gt(x, Add(lim, m)) THEN "F" ELSE "?"

InVolume(b, f, p) ==       \* bounding volume b at world frame f, world point p
    LET l == ToLocal(f, p)
    IN CASE b.shape = "sphere" -> Less3(Norm(l), b.r, BMARG)
         [] b.shape = "cyl"    -> Less3(Sqrt(Add(Sq(l[1]), Sq(l[2]))), b.r, BMARG)
         [] b.shape = "plane"  -> Less3(Opp(l[3]), ZERO, BMARG)

SQRT3 == Sqrt(FromInt(3))

Within(g, f, l) ==         \* local point l (on the unbounded surface) inside the outline?
    CASE g.k \in {"plane", "sphere", "cyl", "parab"} -> "T"
      [] g.k = "rect" -> And3(Less3(Abs(l[1]), Mul(HALF, g.p[1]), BMARG), Less3(Abs(l[2]), Mul(HALF, g.p[2]), BMARG))
      [] g.k = "disc" -> Less3(Sqrt(Add(Sq(l[1]), Sq(l[2]))), g.p[1], BMARG)
      [] g.k = "tri"  -> LET cr(ax, ay, bx, by) == Sub(Mul(ax, by), Mul(ay, bx))
                             a == cr(g.p[1], g.p[2], g.p[3], g.p[4])
                             n == IF Sgn(a) < 0 THEN Opp(a) ELSE a
                             sg(x) == IF Sgn(a) < 0 THEN Opp(x) ELSE x
                             u == sg(cr(l[1], l[2], g.p[3], g.p[4]))
                             v == sg(cr(g.p[1], g.p[2], l[1], l[2]))
                             len(x, y) == Add(Mul(BMARG, Sqrt(Add(Sq(x), Sq(y)))), Eps(34))
                         IN And3(Less3(Opp(u), ZERO, len(g.p[3], g.p[4])),
                                 And3(Less3(Opp(v), ZERO, len(g.p[1], g.p[2])),
                                      Less3(Add(u, v), n, len(Sub(g.p[1], g.p[3]), Sub(g.p[2], g.p[4])))))
      [] g.k = "hemi" -> Less3(l[3], ZERO, BMARG)
      [] g.k = "cut"  -> IF g.b.shape = "none" THEN "T" ELSE InVolume(g.b, MMul(f, g.b.fr), ToWorld(f, l))
      [] g.k = "fcyl" -> Less3(Abs(l[3]), Mul(HALF, g.p[2]), BMARG)
      [] g.k = "dish" -> Less3(Sqrt(Add(Sq(l[1]), Sq(l[2]))), g.p[1], BMARG)
      [] g.k = "hex"  -> LET x == Abs(l[1]) y == Abs(l[2]) r == g.p[1]
                         IN And3(Less3(x, Mul(HALF, Mul(SQRT3, r)), BMARG),
                                 Less3(Add(y, Div(x, SQRT3)), r, BMARG))

\* Coefficients of F(lv + t ld) = A t^2 + B t + C
FOUR == FromInt(4)
QA(g, lv, ld) ==
    CASE g.k \in {"sphere", "hemi", "cut"} -> << Norm2(ld), Mul(TWO, Dot(ld, lv)), Sub(Norm2(lv), Sq(g.p[1])) >>
      [] g.k \in {"cyl", "fcyl"} -> << Add(Sq(ld[1]), Sq(ld[2])),
                                       Mul(TWO, Add(Mul(ld[1], lv[1]), Mul(ld[2], lv[2]))),
                                       Sub(Add(Sq(lv[1]), Sq(lv[2])), Sq(g.p[1])) >>
      [] g.k \in {"parab", "dish", "hex"} ->
            LET a2 == IF g.k = "parab" THEN Sq(g.p[1]) ELSE Mul(FOUR, g.p[2])
                b2 == IF g.k = "parab" THEN Sq(g.p[2]) ELSE Mul(FOUR, g.p[2])
            IN << Add(Div(Sq(ld[1]), a2), Div(Sq(ld[2]), b2)),
                  Sub(Mul(TWO, Add(Div(Mul(ld[1], lv[1]), a2), Div(Mul(ld[2], lv[2]), b2))), ld[3]),
                  Sub(Add(Div(Sq(lv[1]), a2), Div(Sq(lv[2]), b2)), lv[3]) >>

FVal(g, l) == IF Flat(g) THEN l[3] ELSE QA(g, l, V0)[3]

\* Gradient of F: normal direction, not normalised
Grad(g, l) ==
    CASE Flat(g) -> << ZERO, ZERO, ONE >>
      [] g.k \in {"sphere", "hemi", "cut"} -> l
      [] g.k \in {"cyl", "fcyl"} -> << l[1], l[2], ZERO >>
      [] OTHER -> LET a2 == IF g.k = "parab" THEN Sq(g.p[1]) ELSE Mul(FOUR, g.p[2])
                      b2 == IF g.k = "parab" THEN Sq(g.p[2]) ELSE Mul(FOUR, g.p[2])
                  IN << Div(Mul(TWO, l[1]), a2), Div(Mul(TWO, l[2]), b2), Opp(ONE) >>

\* Distances at which the ray meets the unbounded surface, and whether that is doubtful
Roots(g, lv, ld) ==
    IF Flat(g)
    THEN IF Gt(Abs(ld[3]), Eps(17))
         THEN LET t == Div(Opp(lv[3]), ld[3])          \* far along a grazing ray, the point is not known well
              IN [ts |-> { t }, doubt |-> Gt(t, ZERO) /\ (~IsFin(t) \/ Gt(Add(ONE, t), Mul(Abs(ld[3]), FromInt(131072))))]
         ELSE IF Lt(Abs(ld[3]), Eps(30)) /\ Gt(Abs(lv[3]), Eps(6)) THEN [ts |-> {}, doubt |-> FALSE]
         ELSE [ts |-> {}, doubt |-> TRUE]
    ELSE LET q == QA(g, lv, ld)
             A == q[1] B == q[2] C == q[3]
             disc == Sub(Sq(B), Mul(FOUR, Mul(A, C)))
             dm == IF Gt(A, Eps(4)) /\ Lt(Abs(B), FromInt(64)) THEN Eps(20) ELSE Eps(12)
         IN IF Gt(A, Eps(9))
            THEN IF Lt(disc, Opp(dm)) THEN [ts |-> {}, doubt |-> FALSE]
                 ELSE IF Gt(disc, dm)
                 THEN LET r == Sqrt(disc)
                          h == Mul(TWO, A)
                      IN [ts |-> { Div(Sub(Opp(B), r), h), Div(Add(Opp(B), r), h) }, doubt |-> FALSE]
                 ELSE [ts |-> {}, doubt |-> TRUE]
            ELSE IF Gt(Abs(B), Eps(4)) /\ Gt(disc, Eps(12))
            \* nearly linear: the near root is certain, the far one far away and less exactly known, so that it
            \* must not matter: behind the ray, beyond any bounded surface, or after a certain hit
            THEN LET w == Mul(Opp(HALF), IF Sgn(B) > 0 THEN Add(B, Sqrt(disc)) ELSE Sub(B, Sqrt(disc)))
                     near == Div(C, w)
                     far == Div(w, A)
                 IN [ts |-> { near },
                     doubt |-> ~(\/ Lt(A, Eps(36)) \/ Sgn(w) < 0
                                 \/ (g.k \in {"dish", "hex", "fcyl"} /\ ~Lt(far, FromInt(1000)))
                                 \/ (g.k \in {"parab", "cyl"} /\ Gt(near, PMARG)))]
            ELSE IF Lt(A, Eps(36)) /\ Gt(Abs(B), Eps(6)) THEN [ts |-> { Div(Opp(C), B) }, doubt |-> FALSE]
            ELSE IF Lt(A, Eps(36)) /\ Lt(Abs(B), Eps(30)) /\ Gt(Abs(C), Eps(6)) THEN [ts |-> {}, doubt |-> FALSE]
            ELSE [ts |-> {}, doubt |-> TRUE]

\* Is distance t a hit of the bounded surface?
HitAt(g, f, v, d, t) ==
    IF ~IsFin(t) THEN "F"
    ELSE And3(IF Gt(t, PMARG) THEN "T" ELSE IF Lt(t, Opp(PMARG)) THEN "F" ELSE "?",
              Within(g, f, ToLocal(f, At(v, t, d))))

\* Everything about a ray and a surface: sure and possible distances, doubt.
\* The point the ray starts from is no hit where there is another one.
Meet(g, f, v, d) ==
    LET r == Roots(g, ToLocal(f, v), InvDir(f, d))
        sure == { t \in r.ts : HitAt(g, f, v, d, t) = "T" }
    IN [sure  |-> sure,
        maybe |-> { t \in r.ts : HitAt(g, f, v, d, t) # "F" /\ (sure = {} \/ ~IsFin(t) \/ Gt(Abs(t), ZMARG)) },
        doubt |-> r.doubt]

OnSurface(g, f, p) ==      \* loosely: only for doubtful (grazing) cases
    LET l == ToLocal(f, p) IN Le(Abs(FVal(g, l)), Eps(8)) /\ Within(g, f, l) # "F"

\* The specified answer of a surface for a ray
DistanceOK(g, f, v, d, t) ==
    LET m == Meet(g, f, v, d)
    IN IF t = INF THEN m.sure = {}
       ELSE IF m.doubt THEN IsNaN(t) \/ Gt(t, FromInt(1000)) \/ (Ge(t, Opp(PMARG)) /\ OnSurface(g, f, At(v, t, d)))
       ELSE /\ IsFin(t)
            /\ \E r \in m.maybe : CloseR(t, r, TTOL)
            /\ \A r \in m.sure : Lt(t, r) \/ CloseR(t, r, TTOL)

\* The specified normal at point p of a ray going along d
NormalUnit(n) == IsUnit(n, Eps(28))
NormalPerp(g, f, p, n) ==
    LET gr == Unit(RotDir(f, Grad(g, ToLocal(f, p))))
    IN VClose(Cross(n, gr), V0, Eps(18))
NormalFaces(n, d) == Lt(Dot(n, d), Eps(20))
=============================================================================
