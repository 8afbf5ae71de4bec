------------------------------ MODULE MCScene ------------------------------
(***************************************************************************)
(* Rays travelling through the models of Models.tla, by the reference      *)
(* tracer: from every start of a small lattice, in every direction of a    *)
(* small set, for a few hits; a refracting surface sends the ray either    *)
(* way.  Checked: what the specification itself promises of the models.    *)
(***************************************************************************)
EXTENDS Models, IOUtils

Thorough == "VERIF_FAMILY" \in DOMAIN IOEnv /\ IOEnv.VERIF_FAMILY = "t"
Hops == IF Thorough THEN 5 ELSE 3

I(n) == FromInt(n)
Q(n, d) == Div(FromInt(n), FromInt(d))
P(x, y, z) == << x, y, z >>

LensOf(c1, c2) == [k |-> "lens", D |-> I(2), depth |-> Q(3, 4), c1 |-> c1, c2 |-> c2, n |-> Q(3, 2)]
DishM == [k |-> "dish", shape |-> "dish", R |-> I(2), fl |-> I(2), eff |-> Q(9, 10), pos |-> Q(9, 4), sx |-> Q(1, 2), sy |-> Q(3, 4),
          depth |-> Q(1, 2), heff |-> Q(9, 10), acct |-> 1]
Tet == [k |-> "tris", verts |-> << P(I(0), I(0), I(0)), P(I(2), I(0), I(0)), P(I(0), I(2), I(0)), P(I(0), I(0), I(2)), P(I(1), I(0), I(0)) >>,
        faces |-> << << 0, 2, 1 >>, << 0, 1, 4 >>, << 0, 1, 3 >>, << 1, 2, 3 >>, << 2, 2, 0 >>, << 0, 3, 2 >> >>,
        o |-> [k |-> "refr", a |-> ZERO, n |-> << ONE, Q(3, 2) >>], acct |-> 0]

Models_ == << [k |-> "homog", w |-> I(2), d |-> I(3), h |-> I(4), eff |-> Q(9, 10)],
              LensOf(Q(1, 3), Q(-1, 4)), LensOf(Q(-1, 3), Q(1, 4)), LensOf(ZERO, Q(-1, 3)), LensOf(Q(1, 2), ZERO), LensOf(Q(1, 2), Q(1, 3)),
              DishM, Tet,
              [k |-> "osm", w |-> I(2), h |-> I(1), a |-> Q(1, 4)], [k |-> "osr", w |-> I(2), h |-> I(1), a |-> ONE, acct |-> 1] >>
Frames_ == << MEye, MkFrame(P(ZERO, ONE, ZERO), P(ZERO, ZERO, ONE), P(ONE, ZERO, ZERO), P(I(1), Q(-1, 2), I(2))) >>
Kind(c) == Models_[c].k
SceneOf(c, f) == Expand(Models_[c], Frames_[f], << >>, << 1, 0 >>)

\* lattice, slightly off the symmetric places
Off == << Q(1, 37), Q(-1, 53), Q(1, 41) >>
Xs == IF Thorough THEN {-3, -1, 0, 1, 2} ELSE {-1, 0, 2}
Zs == IF Thorough THEN {-2, 0, 1, 3, 6} ELSE {-1, 1, 3}
Dirs == IF Thorough THEN {-2, -1, 0, 1, 2} ELSE {-1, 0, 2}
Starts == { VAdd(P(Q(x, 2), Q(y, 2), I(z)), Off) : x \in Xs, y \in Xs, z \in Zs }
Directions == { Unit(P(I(x), I(y), I(z))) : x \in Dirs, y \in Dirs, z \in Dirs \ {0} }

VARIABLES c, f, v, d, e, m, from, n, fst
vars == << c, f, v, d, e, m, from, n, fst >>

Sc == SceneOf(c, f)
Loc(p) == ToLocal(Frames_[f], p)

\* how often the whole line ahead crosses the surfaces; -1: too close to an edge to say
CrossingsOf(S, vv, dd) == LET ms == [y \in 1..Len(S) |-> Meet(S[y].g, S[y].f, vv, dd)]
                 far(T) == { t \in T : Gt(Abs(t), ZMARG) }
             IN IF \E y \in 1..Len(S) : ms[y].doubt \/ far(ms[y].maybe) # ms[y].sure THEN -1
                ELSE LET RECURSIVE go(_) go(y) == IF y > Len(S) THEN 0 ELSE Cardinality(ms[y].sure) + go(y + 1) IN go(1)

InBox(l, mo) == Lt(Abs(l[1]), H(mo.w)) /\ Lt(Abs(l[2]), H(mo.d)) /\ Gt(l[3], ZERO) /\ Lt(l[3], mo.h)

Init == /\ c \in 1..Len(Models_) /\ f \in 1..Len(Frames_)
        /\ v = V0 /\ d = P(ZERO, ZERO, ONE) /\ e = ONE /\ m = ONE /\ from = 0 /\ n = -1 /\ fst = [k |-> "none"]
\* a source ray: inside a solid body it starts in the body's medium
Start == /\ n = -1 /\ n' = 0 /\ UNCHANGED << c, f, e, from >>
         /\ \E sv \in Starts, sd \in Directions :
              LET S == SceneOf(c, f) nv == ToWorld(Frames_[f], sv) nd == RotDir(Frames_[f], sd)
                  k == IF Kind(c) \in {"lens", "tris"} THEN CrossingsOf(S, nv, nd) ELSE 0
              IN /\ k >= 0 /\ m' = (IF k % 2 = 1 THEN Q(3, 2) ELSE ONE)
                 /\ v' = nv /\ d' = nd /\ fst' = First(S, nv, nd, 0)

Norml == LET y == Sc[fst.y] p == At(v, fst.t, d) IN Against(d, Unit(RotDir(y.f, Grad(y.g, ToLocal(y.f, p)))))

Go(nd, ne, nm) ==
    /\ Gt(ne, Eps(12))
    /\ d' = nd /\ e' = ne /\ m' = nm /\ v' = At(v, fst.t, d) /\ from' = fst.y /\ n' = n + 1 /\ UNCHANGED << c, f >>
    /\ fst' = First(SceneOf(c, f), v', d', from')

Hit == /\ n >= 0 /\ n < Hops /\ fst.k = "hit"
        /\ LET y == Sc[fst.y]
               kept == Kept(y.o, d, Col(y.f, 3), e)
               c1 == Cos1(d, Norml)
           IN IF y.o.k # "refr" THEN Go(Mirror(d, Norml), Sub(e, kept), m)
              ELSE LET n2 == OtherIndex(m, y.o.n)
                       tot == Total3(c1, m, n2)
                       R == Reflectance(c1, m, n2)
                   IN IF tot = "T" THEN Go(Mirror(d, Norml), e, m)
                      ELSE IF tot = "F" THEN \/ Go(Mirror(d, Norml), Mul(e, R), m)
                                             \/ Go(Refract(d, Norml, m, n2), Mul(e, Sub(ONE, R)), n2)
                      ELSE FALSE
Next == Start \/ Hit
Spec == Init /\ [][Next]_vars

Reverse(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
\* the order of the surfaces does not matter
OrderFree == n >= 0 => LET q == Reverse(Sc)
                 r == First(q, v, d, IF from = 0 THEN 0 ELSE Len(q) + 1 - from)
             IN r.k = fst.k /\ (r.k = "hit" => r.t = fst.t /\ r.y = Len(q) + 1 - fst.y)
UnitDir == IsUnit(d, Eps(28))
EnergyOK == Ge(e, ZERO) /\ Le(e, ONE)
\* between the walls of a homogenizer, a ray stays inside until it leaves through an end
Walled == Kind(c) = "homog" /\ from > 0 /\ fst.k = "hit" /\ e # ZERO =>
             LET mo == Models_[c] l == Loc(v)
             IN (n > 0 /\ Lt(Abs(l[1]), Add(H(mo.w), Eps(20))) /\ Lt(Abs(l[2]), Add(H(mo.d), Eps(20))))
                => LET p == Loc(At(v, fst.t, d)) IN Le(Abs(p[1]), Add(H(mo.w), Eps(20))) /\ Le(Abs(p[2]), Add(H(mo.d), Eps(20)))
\* lenses and closed triangulated bodies: a ray crosses the boundary an even number of times if it starts outside,
\* an odd one from inside; medium and place agree all along
Solid == Kind(c) \in {"lens", "tris"}
Crossings == CrossingsOf(Sc, v, d)
MediumIsPlace == Solid /\ from > 0 /\ Crossings >= 0 => (Crossings % 2 = 0) <=> (m = ONE)
\* rays down the axis meet in the focus of a dish
AtFocus == Kind(c) = "dish" /\ n = 1 /\ from = 1 =>
             LET fo == P(ZERO, ZERO, Models_[c].fl)
                 l == Loc(v) dl == InvDir(Frames_[f], d)
                 inc == InvDir(Frames_[f], Mirror(d, Unit(RotDir(Sc[1].f, Grad(Sc[1].g, ToLocal(Sc[1].f, v))))))
             IN (inc[1] = ZERO /\ inc[2] = ZERO) => Lt(Norm(Cross(dl, VSub(fo, l))), Eps(20))
\* the lens: faces are the given depth apart on the axis where both are curved or the front is plane; the reported focal length is the lensmaker's for thin lenses
LensFacts == Kind(c) = "lens" /\ n = 0 =>
             LET mo == Models_[c] S == Lens(MEye, mo, << 1, 0 >>)
                 fr == First(S, P(ZERO, ZERO, I(20)), P(ZERO, ZERO, I(-1)), 0)
                 bk == First(S, P(ZERO, ZERO, I(-20)), P(ZERO, ZERO, ONE), 0)
             IN /\ fr.k = "hit" /\ bk.k = "hit" /\ fr.y = 1 /\ bk.y = 2
                /\ (mo.c2 # ZERO => Close(Sub(I(40), Add(fr.t, bk.t)), mo.depth, Eps(28)))
=============================================================================
