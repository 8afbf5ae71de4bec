----------------------------- MODULE TrSpatial -----------------------------
(* Calls of the rotation and transform helpers. *)
EXTENDS Spatial, TrBase
TOL == Eps(30)

Shape(m, r, c) == Len(m) = r /\ \A k \in 1..r : Len(m[k]) = c
StepFails(st) ==
    IF st.exc # "" THEN { << "C26", "exception-in-" \o st.op >> }
    ELSE Chk(st.same, "C26", "argument-changed")
         \cup CASE st.op \in {"rotx", "roty", "rotz"} ->
                     Chk(Shape(st.out, 4, 4) /\ MClose(st.out, Homog(RotAbout(AxisOf(st.op), st.c, st.s), V0), TOL), "C26", st.op)
                [] st.op = "axis" -> Chk(Shape(st.out, 3, 3) /\ RClose(st.out, RotAbout(st.u, st.c, st.s), TOL), "C26", "rotation-about-an-axis")
                [] st.op = "gen" -> Chk(Shape(st.out, 4, 4) /\ MClose(st.out, Homog(RotAbout(st.u, st.c, st.s), st.t), TOL), "C26", "transform")
                [] st.op = "trans" -> Chk(Shape(st.out, 4, 4) /\ MClose(st.out, Homog(<< XA, YA, ZA >>, st.t), TOL), "C26", "translation")
                [] st.op = "toz" ->
                     Chk(Len(st.out) = Len(st.vecs) /\ \A k \in 1..Len(st.vecs) : Shape(st.out[k], 3, 3) /\ PointsTo(st.out[k], st.vecs[k], Eps(28)), "C26", "rotation-to-direction")
                     \cup Chk(Len(st.out) # Len(st.vecs) \/ \A k \in 1..Len(st.vecs) : st.vecs[k] = ZA => RClose(st.out[k], << XA, YA, ZA >>, TOL), "C26", "z-axis-not-retained")

Init == s \in 1..Len(Scen) /\ i = 0 /\ TallyInit
Next == /\ i < Len(Steps(s)) /\ Report(StepFails(Steps(s)[i + 1])) /\ i' = i + 1 /\ s' = s
Spec == Init /\ [][Next]_<<s, i>>
=============================================================================
