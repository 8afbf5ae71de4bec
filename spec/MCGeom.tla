------------------------------- MODULE MCGeom -------------------------------
(***************************************************************************)
(* The geometry specification against itself, for every combination of     *)
(* surface, frame, ray start and direction of the lists below: the closed  *)
(* formula for the roots against the sign of the surface function along    *)
(* the ray, the gradient against differences, independence of the frame,   *)
(* and uniqueness of the specified answer.                                 *)
(***************************************************************************)
EXTENDS Geometry, TLC, IOUtils

R(n, k) == Div(FromInt(n), FromInt(k))
V(a, b, c, k) == << R(a, k), R(b, k), R(c, k) >>
NoB == [shape |-> "none", r |-> ONE, fr |-> MEye]
MkR(x, y, z, o) == MkFrame(x, y, z, o)
F1 == MkR(V(0,1,0,1), V(0,0,1,1), V(1,0,0,1), V(1,-2,3,2))
F2 == MkR(V(1,2,2,3), V(2,1,-2,3), V(-2,2,-1,3), V(1,1,-1,4))
F3 == MkR(V(3,4,0,5), V(-4,3,0,5), V(0,0,1,1), V(0,0,0,1))
Surfs == << [k |-> "plane", p |-> <<>>], [k |-> "rect", p |-> << R(3,2), TWO >>], [k |-> "disc", p |-> << R(5,4) >>],
            [k |-> "tri", p |-> << TWO, ZERO, HALF, TWO >>], [k |-> "sphere", p |-> << R(5,4) >>],
            [k |-> "hemi", p |-> << R(5,4) >>],
            [k |-> "cut", p |-> << R(5,4) >>, b |-> [shape |-> "plane", r |-> ONE, fr |-> F2]],
            [k |-> "cut", p |-> << R(5,4) >>, b |-> [shape |-> "cyl", r |-> R(3,4), fr |-> F1]],
            [k |-> "cut", p |-> << R(5,4) >>, b |-> [shape |-> "sphere", r |-> ONE, fr |-> F1]],
            [k |-> "cyl", p |-> << ONE >>], [k |-> "fcyl", p |-> << ONE, R(3,2) >>],
            [k |-> "parab", p |-> << ONE, R(3,2) >>], [k |-> "dish", p |-> << TWO, HALF >>],
            [k |-> "hex", p |-> << TWO, HALF >> ] >>
Frames_ == << MEye, F1, F2, F3 >>
Dirs == << V(1,0,0,1), V(0,0,1,1), V(0,0,-1,1), V(3,0,4,5), V(-3,0,-4,5), V(1,2,2,3), V(-2,1,-2,3), V(2,-3,6,7), V(-6,2,-3,7), V(0,-4,-3,5) >>
Q == IF "VERIF_FAMILY" \in DOMAIN IOEnv /\ IOEnv.VERIF_FAMILY = "t" THEN {-7, -5, -3, -1, 2, 4, 6} ELSE {-5, -1, 4}

VARIABLES g, f, v, d
vars == << g, f, v, d >>
Init == /\ g \in 1..Len(Surfs) /\ f \in 1..Len(Frames_) /\ d \in 1..Len(Dirs)
        /\ v \in { << a, b, c >> : a \in Q, b \in Q, c \in Q }
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

S == Surfs[g]
LV == V(v[1], v[2], v[3], 4)
LD == Dirs[d]
FR == Frames_[f]
Local == Roots(S, LV, LD)
World == Roots(S, ToLocal(FR, ToWorld(FR, LV)), InvDir(FR, RotDir(FR, LD)))

RootsOnSurface == \A t \in Local.ts : Gt(Abs(t), FromInt(64)) \/ Close(FVal(S, At(LV, t, LD)), ZERO, Eps(22))

\* sign of F at quarter steps along the ray: changes exactly where an odd number of roots lies in between
TS(k) == R(k, 4)
FS(k) == FVal(S, At(LV, TS(k), LD))
SignsAgree == \/ f # 1 \/ Local.doubt
              \/ \A k \in -16..16 :
                    LET a == FS(k) b == FS(k + 1)
                        n == Cardinality({ t \in Local.ts : Gt(t, TS(k)) /\ Lt(t, TS(k + 1)) })
                    IN Lt(Abs(a), Eps(12)) \/ Lt(Abs(b), Eps(12)) \/ ((Sgn(a) # Sgn(b)) <=> (n = 1))

\* the gradient against central differences
H == Eps(6)
E(j) == [x \in 1..3 |-> IF x = j THEN H ELSE ZERO]
NumGrad(l) == [j \in 1..3 |-> Div(Sub(FVal(S, VAdd(l, E(j))), FVal(S, VSub(l, E(j)))), Mul(TWO, H))]
GradOK == \/ d # 1 \/ f # 1 \/ Norm2(Grad(S, LV)) = ZERO
          \/ LET n == NumGrad(LV) IN VClose(Cross(Unit(n), Unit(Grad(S, LV))), V0, Eps(14)) /\ Gt(Dot(n, Grad(S, LV)), ZERO)

FrameFree == \/ Local.doubt \/ World.doubt
             \/ /\ Cardinality(Local.ts) = Cardinality(World.ts)
                /\ \A t \in Local.ts : \E u \in World.ts : CloseR(t, u, Eps(18))

\* the answer is unique: among miss and all roots exactly the first sure hit is accepted (unless too close to call)
WV == ToWorld(FR, LV)
WD == RotDir(FR, LD)
Unique == LET m == Meet(S, FR, WV, WD)
          IN \/ m.doubt \/ m.sure # m.maybe
             \/ /\ DistanceOK(S, FR, WV, WD, INF) <=> m.sure = {}
                /\ \A t \in m.sure : DistanceOK(S, FR, WV, WD, t) <=> \A u \in m.sure : Le(t, u) \/ CloseR(t, u, TTOL)
                /\ \A t \in m.sure : ~DistanceOK(S, FR, WV, WD, Add(t, Eps(4)))
\* bounded surfaces are parts of the unbounded ones
SubSet == Meet(S, FR, WV, WD).sure \subseteq World.ts
=============================================================================
