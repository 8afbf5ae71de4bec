------------------------------ MODULE MCOptics ------------------------------
(***************************************************************************)
(* The optics laws of the specification against their textbook properties, *)
(* for every combination of direction, normal and indices in the lists.    *)
(***************************************************************************)
EXTENDS Optics, TLC, IOUtils

R(n, k) == Div(FromInt(n), FromInt(k))
V(a, b, c, k) == << R(a, k), R(b, k), R(c, k) >>
Thorough == "VERIF_FAMILY" \in DOMAIN IOEnv /\ IOEnv.VERIF_FAMILY = "t"
\* unit vectors with rational coordinates
Base == { V(0,0,1,1), V(3,0,4,5), V(4,0,3,5), V(5,0,12,13), V(12,0,5,13), V(1,2,2,3), V(2,-3,6,7), V(-6,2,3,7),
          V(1,4,8,9), V(-4,4,7,9), V(2,6,9,11), V(6,6,7,11), V(8,0,15,17), V(20,0,21,29), V(2,10,11,15) }
Units == Base \cup { VNeg(u) : u \in Base }
Norms == IF Thorough THEN Base ELSE { V(0,0,1,1), V(1,2,2,3), V(-6,2,3,7) }
Idx == { ONE, R(4,3), R(3,2), R(5,2) }

VARIABLES d, n, n1, n2
vars == << d, n, n1, n2 >>
Init == d \in Units /\ n \in Norms /\ n1 \in Idx /\ n2 \in Idx
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

T == Eps(28)
M == Mirror(d, n)
C1 == Cos1(d, n)
Tot == Total3(C1, n1, n2)
X == Refract(d, n, n1, n2)
Rf == Reflectance(C1, n1, n2)
Skip == Tot # "F" \/ Lt(C1, Eps(10)) \/ Lt(Cos2Sq(C1, n1, n2), Eps(10))

MirrorLaw == /\ IsUnit(M, T)                                     \* unit
             /\ Close(Dot(M, n), Opp(Dot(d, n)), T)               \* normal component reversed
             /\ VClose(Cross(M, n), Cross(d, n), T)               \* the rest kept
             /\ VClose(Mirror(M, n), d, T)                        \* twice is nothing
             /\ VClose(Mirror(d, VNeg(n)), M, T)                  \* whichever way the normal points
SnellLaw == Skip \/ /\ IsUnit(X, Eps(22))
                    /\ VClose(VScale(n1, Cross(n, d)), VScale(n2, Cross(n, X)), Eps(22))  \* n1 sin = n2 sin, same plane
                    /\ Sgn(Dot(d, n)) = Sgn(Dot(X, n))            \* to the far side
                    /\ VClose(Refract(d, VNeg(n), n1, n2), X, T)
Reversible == Skip \/ /\ VClose(VNeg(Refract(VNeg(X), n, n2, n1)), d, Eps(16))
                      /\ Close(Reflectance(Cos1(X, n), n2, n1), Rf, Eps(16))
TotalIff == Tot = "?" \/ ((Tot = "T") <=> Gt(Mul(Sq(n1), Norm2(Cross(d, n))), Sq(n2)))
ShareOK == Skip \/ /\ Ge(Rf, ZERO) /\ Le(Rf, ONE)
                   /\ (n1 = n2 => Close(Rf, ZERO, T))
                   /\ (Close(C1, ONE, Eps(36)) => Close(Rf, Sq(Div(Sub(n1, n2), Add(n1, n2))), Eps(20)))
\* conservation: kept + leaving = incoming, for every optics and absorptivity
Conserved == \A a \in { ZERO, R(1,4), R(2,3), ONE } : \A k \in {"mirror", "refl", "onesided"} :
                LET kp == Kept([k |-> k, a |-> a], d, n, FromInt(7))
                IN Ge(kp, ZERO) /\ Le(kp, FromInt(7))
                   /\ (k = "onesided" /\ Sgn(Dot(d, n)) > 0 => kp = FromInt(7))
=============================================================================
