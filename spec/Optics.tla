------------------------------- MODULE Optics -------------------------------
(***************************************************************************)
(* What happens to a ray at a surface: mirror law, Snell's and Fresnel's   *)
(* laws, and the optics managers built from them.                          *)
(***************************************************************************)
EXTENDS Geometry, Clauses

Mirror(d, n) == VSub(d, VScale(Mul(TWO, Dot(d, n)), n))

\* n turned against d
Against(d, n) == IF Sgn(Dot(d, n)) > 0 THEN VNeg(n) ELSE n
Cos1(d, n) == MinN(Abs(Dot(d, n)), ONE)

\* square of the cosine on the far side; negative: total reflection
Cos2Sq(c1, n1, n2) == Sub(ONE, Mul(Sq(Div(n1, n2)), Sub(ONE, Sq(c1))))
Total3(c1, n1, n2) == LET c == Cos2Sq(c1, n1, n2)
                      IN IF Lt(c, Opp(Eps(26))) THEN "T" ELSE IF Gt(c, Eps(26)) THEN "F" ELSE "?"

Refract(d, n, n1, n2) ==
    LET na == Against(d, n)
        c1 == Cos1(d, n)
        eta == Div(n1, n2)
        c2 == Sqrt(MaxN(Cos2Sq(c1, n1, n2), ZERO))
    IN VAdd(VScale(eta, d), VScale(Sub(Mul(eta, c1), c2), na))

Reflectance(c1, n1, n2) ==
    LET c2 == Sqrt(MaxN(Cos2Sq(c1, n1, n2), ZERO))
        rs == Div(Sub(Mul(n1, c1), Mul(n2, c2)), Add(Mul(n1, c1), Mul(n2, c2)))
        rp == Div(Sub(Mul(n1, c2), Mul(n2, c1)), Add(Mul(n1, c2), Mul(n2, c1)))
    IN Mul(HALF, Add(Sq(rs), Sq(rp)))

\* directions and shares are less certain where the square root is steep
\* and where the normal depends on the point
NTol(g) == IF Flat(g) THEN Eps(31) ELSE Eps(18)
RTol(g, c1, n1, n2) == IF Lt(Cos2Sq(c1, n1, n2), Eps(8)) \/ Lt(c1, Eps(5)) THEN Eps(9) ELSE IF Flat(g) THEN Eps(26) ELSE Eps(20)
DTol(g, c1, n1, n2) == IF Lt(Cos2Sq(c1, n1, n2), Eps(8)) THEN Eps(11) ELSE IF Flat(g) THEN Eps(29) ELSE Eps(20)

OtherIndex(n, pair) == IF n = pair[1] THEN pair[2] ELSE pair[1]

(* What a surface with optics o and upward direction up keeps of a ray with *)
(* energy e and direction d.  Kinds of optics:                             *)
(*   mirror      refl a     recv a (with books)    onesided a   refr n1 n2 *)
(*   lamb a      lrecv a (with books)                                      *)
(*   osrecv a: receiver (with books) in front, opaque back                 *)
Kept(o, d, up, e) ==
    CASE o.k = "mirror" -> ZERO
      [] o.k \in {"refl", "recv", "lamb", "lrecv"} -> Mul(e, o.a)
      [] o.k \in {"onesided", "osrecv"} -> IF Sgn(Dot(d, up)) > 0 THEN e ELSE Mul(e, o.a)
      [] o.k = "refr" -> ZERO
Sided(o)    == o.k \in {"onesided", "osrecv"}
Specular(o) == o.k \in {"mirror", "refl", "recv", "onesided", "osrecv"}
Diffuse(o)  == o.k \in {"lamb", "lrecv"}
\* does the interaction appear in the books of a receiver?
Booked(o, d, up) == o.k \in {"recv", "lrecv"} \/ (o.k = "osrecv" /\ Sgn(Dot(d, up)) <= 0)

ETOL(e) == Add(Eps(30), Mul(Eps(28), Abs(e)))

\* properties that speak about optics o
PropsOf(o) == IF Diffuse(o) THEN {"C17"} ELSE IF o.k = "refr" THEN {"C15"} ELSE {"C14"}
NoSide(o, d, up) == Sided(o) /\ Lt(Abs(Dot(d, up)), Eps(14))     \* too flat for the side to be certain

(* What must be true of the rays leaving (kids, a sequence of [v, d, e, m, *)
(* mark]) where ray r meets, at distance t, the surface g at frame f with  *)
(* optics o.                                                               *)
AfterFails(g, o, f, r, t, kids) ==
    LET p == At(r.v, t, r.d)
        nrm == Against(r.d, Unit(RotDir(f, Grad(g, ToLocal(f, p)))))
        up == Col(f, 3)
        K == 1..Len(kids)
        mir == Mirror(r.d, nrm)
        c1 == Cos1(r.d, nrm)
        PS == PropsOf(o)
        kept == Kept(o, r.d, up, r.e)
        sum == SumSeq([k \in K |-> kids[k].e])
        noside == NoSide(o, r.d, up)
        grazing == Lt(c1, Eps(14)) \/ noside
        touching == o.k = "refr" /\ Lt(c1, Eps(30))                   \* the shares are a limit, 0/0 itself
    IN  ChkAll(\A k \in K : VClose(kids[k].v, p, Eps(20)), PS \cup {"C03"}, "does-not-leave-from-the-hit-point")
        \cup ChkAll(\A k \in K : kids[k].mark = r.mark, {"C03"}, "ray-property-lost")
        \cup ChkAll(\A k \in K : IsUnit(kids[k].d, Eps(26)), PS, "direction-not-unit")
        \cup ChkAll(noside \/ touching \/ Close(Add(sum, kept), r.e, ETOL(r.e)), {"C07"}, "energy-not-conserved")
        \cup ChkAll(touching \/ \A k \in K : Ge(kids[k].e, Opp(ETOL(r.e))) /\ Le(kids[k].e, Add(r.e, ETOL(r.e))), {"C07"}, "energy-out-of-range")
        \cup (IF o.k # "refr"
              THEN ChkAll(Len(kids) = 1, PS, "not-one-ray-out")
                   \cup (IF Specular(o)
                         THEN ChkAll(Lt(c1, Eps(14)) \/ \A k \in K : VClose(kids[k].d, mir, NTol(g)), {"C14"}, "mirror-law")
                         ELSE ChkAll(grazing \/ \A k \in K : Ge(Dot(kids[k].d, nrm), Opp(Eps(22))), {"C17"}, "wrong-side")
                              \cup ChkAll(\A k \in K : Close(kids[k].e, Sub(r.e, kept), ETOL(r.e)), {"C17"}, "diffuse-energy"))
                   \cup ChkAll(\A k \in K : kids[k].m = r.m, PS, "medium-changed")
                   \cup (IF Sided(o) /\ ~grazing
                         THEN ChkAll(\A k \in K : Close(kids[k].e, Sub(r.e, kept), ETOL(r.e)), {"C19", "C07"}, "one-sided-energy") ELSE {})
              ELSE LET n2 == OtherIndex(r.m, o.n)
                       tot == Total3(c1, r.m, n2)
                       rd == Refract(r.d, nrm, r.m, n2)
                       share == Reflectance(c1, r.m, n2)
                       rt == Add(Mul(r.e, RTol(g, c1, r.m, n2)), Eps(30))
                       isR(k) == VClose(kids[k].d, mir, NTol(g)) /\ kids[k].m = r.m
                       isX(k) == VClose(kids[k].d, rd, DTol(g, c1, r.m, n2)) /\ kids[k].m = n2
                   IN IF tot = "?" \/ grazing
                      THEN ChkAll(Len(kids) \in {1, 2}, {"C15"}, "number-of-rays-out")
                      ELSE IF tot = "T"
                      THEN ChkAll(Len(kids) = 1 /\ \A k \in K : isR(k), {"C15", "C14"}, "total-reflection")
                      ELSE ChkAll(Len(kids) = 2, {"C15"}, "not-split-in-two")
                           \cup (IF Len(kids) = 2
                                 THEN ChkAll(\E k \in K : isR(k), {"C15", "C14"}, "reflected-part")
                                      \cup ChkAll(\E k \in K : isX(k), {"C15"}, "refracted-part")
                                      \cup ChkAll(\E k, l \in K : k # l /\ isR(k) /\ isX(l)
                                                /\ Close(kids[k].e, Mul(r.e, share), rt)
                                                /\ Close(kids[l].e, Mul(r.e, Sub(ONE, share)), rt), {"C15"}, "shares")
                                 ELSE {}))
=============================================================================
