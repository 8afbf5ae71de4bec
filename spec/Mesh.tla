-------------------------------- MODULE Mesh --------------------------------
(***************************************************************************)
(* Meshes: local points P that stand for a surface g at mesh step h.       *)
(***************************************************************************)
EXTENDS Geometry

Rho(l) == Sqrt(Add(Sq(l[1]), Sq(l[2])))
OnIt(g, l) == Le(Abs(FVal(g, l)), Mul(Eps(22), MaxN(ONE, Norm2(l))))
\* inside the outline, to less than one step
Outline(g, l, h) ==
    CASE g.k = "rect" -> Lt(Abs(l[1]), Add(Mul(HALF, g.p[1]), h)) /\ Lt(Abs(l[2]), Add(Mul(HALF, g.p[2]), h))
      [] g.k \in {"disc", "dish"} -> Lt(Rho(l), Add(g.p[1], h))
      [] g.k = "fcyl" -> Lt(Abs(l[3]), Add(Mul(HALF, g.p[2]), h))
      [] g.k = "hemi" -> Lt(l[3], h)
      [] g.k = "tri" -> Within(g, MEye, l) # "F"
      [] OTHER -> TRUE
\* how far a mesh point may be from a point of the surface: a step along each of two directions
\* (flat rectangles: at least the edges, so up to two steps; discs and dishes: the last ring is up to a step inside the rim)
Reach(g, h) == Mul(Div(FromInt(CASE g.k = "rect" -> 1415 [] g.k \in {"disc", "dish"} -> 1120 [] g.k = "tri" -> 1000 [] OTHER -> 750), FromInt(1000)), h)
Apart(g, a, b) == IF g.k = "dish" THEN Rho(VSub(a, b)) ELSE Norm(VSub(a, b))      \* dishes are meshed by their plan
Spanned(g, P, l, h) == \E k \in 1..Len(P) : Le(Apart(g, P[k], l), Add(Reach(g, h), Eps(20)))
\* the points are a grid of rows: points next to each other in the grid are next to each other on the surface
Near(g, a, b, h) == Le(Apart(g, a, b), Add(Mul(TWO, h), Eps(20)))
Connected(g, P, rows, cols, h) ==
    /\ \A a \in 1..rows, b \in 1..(cols - 1) : Near(g, P[(a - 1) * cols + b], P[(a - 1) * cols + b + 1], h)
    /\ \A a \in 1..(rows - 1), b \in 1..cols : Near(g, P[(a - 1) * cols + b], P[a * cols + b], h)
\* a rectangle's mesh goes all the way to its corners
Cornered(g, P) == g.k = "rect" => \A a \in {HALF, Opp(HALF)}, b \in {HALF, Opp(HALF)} :
    \E k \in 1..Len(P) : Le(Norm(VSub(P[k], << Mul(a, g.p[1]), Mul(b, g.p[2]), ZERO >>)), Eps(20))
\* the lengths a mesh has to cover, across and around
PI == Div(FromInt(355), FromInt(113))
Extent(g) == CASE g.k = "rect" -> << g.p[1], g.p[2] >>
               [] g.k \in {"disc", "dish"} -> << g.p[1], Mul(Mul(TWO, PI), g.p[1]) >>
               [] g.k = "fcyl" -> << g.p[2], Mul(Mul(TWO, PI), g.p[1]) >>
               [] g.k = "tri" -> LET e == MaxN(Norm(<< g.p[1], g.p[2], ZERO >>), MaxN(Norm(<< g.p[3], g.p[4], ZERO >>), Norm(<< Sub(g.p[1], g.p[3]), Sub(g.p[2], g.p[4]), ZERO >>))) IN << e, e >>
               [] OTHER -> << Mul(PI, g.p[1]), Mul(Mul(TWO, PI), g.p[1]) >>
\* and so many points at most (twice the steps needed, and a few more)
MostPoints(g, h) == LET e == Extent(g) F(x) == Add(Div(x, h), FromInt(3)) IN Mul(TWO, Mul(F(e[1]), F(e[2])))
\* precondition on a sample point
OfSurface(g, l) == OnIt(g, l) /\ Within(g, MEye, l) # "F"
=============================================================================
