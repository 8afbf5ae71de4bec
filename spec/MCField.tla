------------------------------ MODULE MCField ------------------------------
(* Histories of aiming and raising, over lattices of positions, suns and heights. *)
EXTENDS Field, FiniteSets, IOUtils

Thorough == "VERIF_FAMILY" \in DOMAIN IOEnv /\ IOEnv.VERIF_FAMILY = "t"
Len_ == IF Thorough THEN 4 ELSE 3
I(n) == FromInt(n)
Angle(m, n) == << Div(I(m * m - n * n), I(m * m + n * n)), Div(I(2 * m * n), I(m * m + n * n)) >>
Azimuths == { Angle(2, 1), Angle(1, 3), Angle(1, 0), Angle(1, -2) }
Zeniths == { Angle(1, 0), Angle(3, 1), Angle(2, 1), Angle(5, 4) }
Suns == { Sun(a[1], a[2], z[1], z[2]) : a \in Azimuths, z \in Zeniths }
Heights == { I(5), I(10), I(-3) }
Pos == << << I(4), I(0), I(0) >>, << I(-3), I(5), I(1) >>, << I(1), I(-6), Opp(HALF) >>, << I(0), I(0), I(2) >> >>

VARIABLES fd, sun, n, last
vars == << fd, sun, n, last >>
Init == fd = Built(Pos, I(5)) /\ sun = V0 /\ n = 0 /\ last = "build"
Aim == \E x \in Suns : fd' = Aimed(fd, x) /\ sun' = x /\ last' = "aim"
Raise == \E h \in Heights : fd' = Raised(fd, h) /\ last' = "raise" /\ sun' = sun
Next == n < Len_ /\ n' = n + 1 /\ (Aim \/ Raise)
Spec == Init /\ [][Next]_vars

Stay == fd.pos = Pos
Down == sun = V0 => \A k \in 1..Len(Pos) : fd.nrm[k] = DOWN
T == Eps(26)
\* the sun's ray at the centre goes to the target, and the sun is on the front side
Reaches == last = "aim" => \A k \in 1..Len(Pos) :
    LET out == Mirror(VNeg(sun), fd.nrm[k])
    IN Norm2(VAdd(sun, ToTarget(fd, k))) = ZERO \/
       (VClose(out, ToTarget(fd, k), T) /\ Gt(Dot(sun, fd.nrm[k]), ZERO) /\ IsUnit(fd.nrm[k], T))
UnitSun == IsUnit(sun, T) \/ sun = V0
\* layouts: neighbours in a row are two half-spaces apart, adjacent rows use different angles
Layout == n = 0 => \A nr \in 0..4 : \A na \in 0..5 :
    LET L == Stagger(nr, na)
    IN /\ \A x \in L : \A y \in L : x[1] = y[1] => (x[2] - y[2]) % 2 = 0
       /\ \A x \in L : \A y \in L : x[1] = y[1] + 1 => x[2] # y[2]
       /\ (nr >= 2 => { x[2] : x \in L } = 0..(na - 1))
=============================================================================
