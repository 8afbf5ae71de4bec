------------------------------ MODULE MCBounds ------------------------------
(* Volumes and points on a lattice, in several frames. *)
EXTENDS Bounds, TLC, IOUtils
Thorough == "VERIF_FAMILY" \in DOMAIN IOEnv /\ IOEnv.VERIF_FAMILY = "t"
I(n) == FromInt(n)
V(a, b, c, k) == << Div(I(a), I(k)), Div(I(b), I(k)), Div(I(c), I(k)) >>
Fs == << MEye, MkFrame(V(0,1,0,1), V(0,0,1,1), V(1,0,0,1), V(1,-2,3,2)), MkFrame(V(1,2,2,3), V(2,1,-2,3), V(-2,2,-1,3), V(1,1,-1,4)),
         MkFrame(V(3,4,0,5), V(-4,3,0,5), V(0,0,1,1), V(0,0,0,1)) >>
Shapes == {"sphere", "cyl", "plane"}
L == IF Thorough THEN -6..6 ELSE -4..4
VARIABLES sh, f, g, p
vars == << sh, f, g, p >>
Init == sh \in Shapes /\ f \in 1..Len(Fs) /\ g \in 1..Len(Fs) /\ p \in L \X L \X L
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
R == Div(I(7), I(5))
B == [shape |-> sh, r |-> R, fr |-> MEye]
P == V(2 * p[1], 2 * p[2], 2 * p[3], 5)
In(ff, q) == InVolume(B, ff, q)
\* moving volume and point together changes nothing
Together == LET a == In(Fs[f], P) b == In(MMul(Fs[g], Fs[f]), ToWorld(Fs[g], P)) IN a = "?" \/ b = "?" \/ a = b
\* what the shapes are, said with integers for the frame at the origin (in fifths)
Plain == f = 1 => LET x == 2 * p[1] y == 2 * p[2] z == 2 * p[3]
                      d == CASE sh = "sphere" -> x * x + y * y + z * z - 49 [] sh = "cyl" -> x * x + y * y - 49 [] sh = "plane" -> -z
                  IN In(MEye, P) = (IF d < 0 THEN "T" ELSE IF d > 0 THEN "F" ELSE "?")
\* the square holds every point of the plane inside the sphere, and no smaller one does
Sq4 == CutSquare(Org(Fs[f]), R, Fs[g])
Holds == sh = "sphere" /\ p[3] = 0 =>
    LET w == ToWorld(Fs[g], << P[1], P[2], ZERO >>)
    IN (Sq4 # << >> /\ In(Fs[f], w) = "T") => Le(Sq4[1], P[1]) /\ Le(P[1], Sq4[2]) /\ Le(Sq4[3], P[2]) /\ Le(P[2], Sq4[4])
Tight == sh = "sphere" /\ p = << 0, 0, 0 >> /\ Sq4 # << >> =>
    LET mx == Mul(HALF, Add(Sq4[1], Sq4[2])) my == Mul(HALF, Add(Sq4[3], Sq4[4]))
        on(x, y) == Close(Norm(VSub(ToWorld(Fs[g], << x, y, ZERO >>), Org(Fs[f]))), R, Eps(26))
    IN on(Sq4[1], my) /\ on(Sq4[2], my) /\ on(mx, Sq4[3]) /\ on(mx, Sq4[4])
=============================================================================
