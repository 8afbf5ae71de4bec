------------------------------- MODULE Models -------------------------------
(***************************************************************************)
(* The ready-made models, as the surfaces they are made of, in the         *)
(* model's own frame F.  Written from their documentation and dimensions.  *)
(***************************************************************************)
EXTENDS Scene

LOCAL X3 == << ONE, ZERO, ZERO >>
LOCAL Y3 == << ZERO, ONE, ZERO >>
LOCAL Z3 == << ZERO, ZERO, ONE >>
H(x) == Mul(HALF, x)
Opt(k, a) == [k |-> k, a |-> a, n |-> << ONE, ONE >>]
Rect(w, h) == [k |-> "rect", p |-> << w, h >>]
Sf(g, f, o, acct, ob, skip) == [g |-> g, f |-> f, o |-> o, acct |-> acct, ob |-> ob, skip |-> skip]
Shift(z) == MkFrame(X3, Y3, Z3, << ZERO, ZERO, z >>)

\* A rectangular mirror in the XY plane that reflects above and swallows below
OneSidedMirror(F, w, h, a, ob) == << Sf(Rect(w, h), F, Opt("onesided", a), 0, ob, TRUE) >>
\* A receiver above, opaque below
OneSidedReceiver(F, w, h, a, acct, ob) == << Sf(Rect(w, h), F, Opt("osrecv", a), acct, ob, TRUE) >>

\* Four one-sided mirrors facing inward, walling the aperture w x d from z = 0 to z = h
Homogenizer(F, w, d, h, a, ob) ==
    LET wall(zax, org, len, k) ==      \* horizontal extent len along Z3 x zax
            LET hor == Cross(Z3, zax)
            IN Sf(Rect(len, h), MMul(F, MkFrame(hor, Z3, Cross(hor, Z3), org)), Opt("onesided", a), 0, << ob, k >>, TRUE)
    IN << wall(VNeg(X3), << H(w), ZERO, H(h) >>, d, 1),
          wall(X3, << Opp(H(w)), ZERO, H(h) >>, d, 2),
          wall(VNeg(Y3), << ZERO, H(d), H(h) >>, w, 3),
          wall(Y3, << ZERO, Opp(H(d)), H(h) >>, w, 4) >>

\* The reflector at the origin, the receiver facing it at z = pos, the homogenizer in front of the receiver
Dish(F, m, ob) ==
    LET down == MMul(F, MkFrame(X3, VNeg(Y3), VNeg(Z3), << ZERO, ZERO, m.pos >>))
        loss(e) == Sub(ONE, e)
    IN << Sf([k |-> m.shape, p |-> << m.R, m.fl >>], F, Opt("refl", loss(m.eff)), 0, << ob, 0 >>, FALSE) >>
       \o OneSidedReceiver(down, m.sx, m.sy, ONE, m.acct, << ob, 5 >>)
       \o Homogenizer(down, m.sx, m.sy, m.depth, loss(m.heff), ob)

\* Thick-lens equation; curvature 0 for a plane
LensPower(m) == Mul(Sub(m.n, ONE), Add(Sub(m.c1, m.c2), Div(Mul(Mul(m.depth, Sub(m.n, ONE)), Mul(m.c1, m.c2)), m.n)))
FocalLength(m) == Div(ONE, LensPower(m))
\* Height of a point on a face of curvature c over the plane through the rim, at the rim: sag
Sag(c, R) == IF c = ZERO THEN ZERO       \* signed: vertex minus rim
             ELSE LET r == Div(ONE, Abs(c))
                      s == Sub(r, Sqrt(Sub(Sq(r), Sq(R))))
                  IN IF Sgn(c) > 0 THEN s ELSE Opp(s)
(* Where the vertices of the faces are on the axis.  The documentation     *)
(* wants the back focal point at z = -f; the code, held in place by the    *)
(* existing tests, differs (known findings); this is where the faces are.  *)
LensShift(m) == Div(Mul(Mul(FocalLength(m), m.depth), Mul(Sub(m.n, ONE), m.c1)), m.n)
BackVertex(m) == IF m.c2 = ZERO THEN ZERO ELSE LensShift(m)
FrontVertex(m) == Add(LensShift(m), m.depth)
Lens(F, m, ob) ==
    LET zf == FrontVertex(m)
        zb == BackVertex(m)
        R == H(m.D)
        opt == [k |-> "refr", a |-> ZERO, n |-> << ONE, m.n >>]
        face(c, z) ==
            IF c = ZERO THEN Sf([k |-> "disc", p |-> << R >>], MMul(F, Shift(z)), opt, 0, ob, FALSE)
            ELSE LET r == Div(ONE, Abs(c))
                     up == Sgn(c) > 0
                     rim == Sqrt(Sub(Sq(r), Sq(R)))
                     \* half-space above (below) the rim's plane, in the sphere's frame
                     fr == IF up THEN Shift(rim) ELSE MkFrame(X3, VNeg(Y3), VNeg(Z3), << ZERO, ZERO, Opp(rim) >>)
                 IN Sf([k |-> "cut", p |-> << r >>, b |-> [shape |-> "plane", r |-> ZERO, fr |-> fr]],
                       MMul(F, Shift(IF up THEN Sub(z, r) ELSE Add(z, r))), opt, 0, ob, FALSE)
        top == Sub(zf, Sag(m.c1, R))
        bot == Sub(zb, Sag(m.c2, R))
        gap == Sub(top, bot)
    IN << face(m.c1, zf), face(m.c2, zb) >>
       \o (IF Gt(gap, ZERO)
           THEN << Sf([k |-> "fcyl", p |-> << R, gap >>], MMul(F, Shift(H(Add(top, bot)))), opt, 0, ob, FALSE) >>
           ELSE << >>)

\* Exactly the listed triangles; those without area contribute nothing
Triangles(F, verts, faces, o, acct, ob) ==
    LET tri(t) ==
            LET A == verts[t[1] + 1]  ab == VSub(verts[t[2] + 1], A)  ac == VSub(verts[t[3] + 1], A)
            IN IF Lt(Norm(ab), Eps(32)) \/ Lt(Norm(ac), Eps(32)) \/ Lt(Norm(Cross(Unit(ab), Unit(ac))), Eps(20)) THEN << >>
               ELSE LET x == Unit(ab)
                        z == Unit(Cross(x, Unit(ac)))
                        y == Cross(z, x)
                    IN << Sf([k |-> "tri", p |-> << Dot(ab, x), Dot(ab, y), Dot(ac, x), Dot(ac, y) >>],
                             MMul(F, MkFrame(x, y, z, A)), o, acct, ob, FALSE) >>
        RECURSIVE go(_)
        go(k) == IF k > Len(faces) THEN << >> ELSE tri(faces[k]) \o go(k + 1)
    IN go(1)

\* A mirror of a heliostat field after aiming: normal halfway between sun and target
HelioNormal(pos, sun, th) == Unit(VAdd(sun, Unit(VSub(<< ZERO, ZERO, th >>, pos))))

\* A part m of a scene at frame F (sf: frames of its surfaces), object tag ob
Expand(m, F, sf, ob) ==
    CASE m.k = "obj"   -> [x \in 1..Len(m.surfs) |-> Sf(m.surfs[x].g, MMul(F, sf[x]), m.surfs[x].o, m.surfs[x].acct, ob, m.skip)]
      [] m.k = "osm"   -> OneSidedMirror(F, m.w, m.h, m.a, ob)
      [] m.k = "osr"   -> OneSidedReceiver(F, m.w, m.h, m.a, m.acct, ob)
      [] m.k = "homog" -> Homogenizer(F, m.w, m.d, m.h, Sub(ONE, m.eff), ob)
      [] m.k = "dish"  -> Dish(F, m, ob)
      [] m.k = "lens"  -> Lens(F, m, ob)
      [] m.k = "tris"  -> Triangles(F, m.verts, m.faces, m.o, m.acct, ob)
=============================================================================
