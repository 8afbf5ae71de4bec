------------------------------- MODULE Bounds -------------------------------
(* Bounding volumes (InVolume) and the square a cutting plane needs. *)
EXTENDS Geometry

\* sphere of radius r about c, plane: the XY plane of frame t.  << >> if the plane does not surely cut the sphere
CutSquare(c, r, t) ==
    LET l == ToLocal(t, c)
        d == Sub(Sq(r), Sq(l[3]))
    IN IF Lt(d, Eps(8)) THEN << >>
       ELSE LET e == Sqrt(d) IN << Sub(l[1], e), Add(l[1], e), Sub(l[2], e), Add(l[2], e) >>

\* the same for numbers that are exact on both sides (whole-numbered points, frames and sizes): the border belongs to the volume
InExactly(b, f, p) ==
    LET l == ToLocal(f, p)
    IN IF CASE b.shape = "sphere" -> Le(Norm2(l), Sq(b.r))
            [] b.shape = "cyl"    -> Le(Add(Sq(l[1]), Sq(l[2])), Sq(b.r))
            [] b.shape = "plane"  -> Ge(l[3], ZERO)
       THEN "T" ELSE "F"
=============================================================================
