------------------------------ MODULE TrField ------------------------------
(* Heliostat fields: built, aimed, raised, looked at, shot at. *)
EXTENDS Field, TrBase

VARIABLES fd, sun, goal  \* sun = V0: never aimed; goal: the target at the last aiming
RECURSIVE Chain(_)
Chain(fs) == IF fs = <<>> THEN MEye ELSE MMul(Head(fs), Chain(Tail(fs)))
\* bisectors are only defined where sun and target are not opposite
Fine(k) == sun = V0 \/ Gt(Norm(VAdd(sun, Unit(VSub(goal, fd.pos[k])))), Eps(5))

LookFails(st) ==
    Chk(Len(st.loc) = Len(fd.pos) /\ \A k \in 1..Len(fd.pos) : VClose(st.loc[k], fd.pos[k], Eps(28)), "C20", "heliostat-left-its-position")
    \cup Chk(Len(st.z) # Len(fd.pos) \/ sun # V0 \/ \A k \in 1..Len(fd.pos) : VClose(st.z[k], DOWN, Eps(28)), "C20", "does-not-face-down-before-aiming")
    \cup Chk(Len(st.z) = Len(fd.pos) /\ \A k \in 1..Len(fd.pos) : ~Fine(k) \/ VClose(st.z[k], fd.nrm[k], Eps(18)), "C20", "wrong-normal")
    \cup Chk(st.same, "C20", "the-callers-positions-were-changed")

\* a shot from direction u at a point off the centre of heliostat h (both in the field's frame)
ShotFails(st, f, x) ==
    LET k == x.h
        n == fd.nrm[k]
        u == x.u
        c == Dot(u, n)
        hit == VAdd(fd.pos[k], x.off)        \* off lies in the mirror's plane if the mirror is where it should be
        v == [j \in 1..Len(x.out) |-> ToLocal(f, x.out[j].v)]
        d == [j \in 1..Len(x.out) |-> InvDir(f, x.out[j].d)]
        live == { j \in 1..Len(x.out) : x.out[j].e # ZERO }
    IN IF ~Fine(k) THEN {}
       ELSE IF Gt(Norm(x.off), st.far)
            THEN Chk(\A j \in live : Gt(Norm(VSub(v[j], fd.pos[k])), st.reach), "C20", "heliostat-is-larger-than-given")
       ELSE IF Gt(Norm(x.off), st.near) THEN {}
       ELSE IF Lt(c, Opp(Eps(6))) THEN Chk(live = {}, "C20", "reflected-from-the-back")
       ELSE IF Lt(c, Eps(6)) THEN {}
       ELSE IF Len(x.out) # 1 THEN { << "C20", "ray-not-handled-by-one-heliostat" >> }
       ELSE LET tt == Div(Dot(VSub(fd.pos[k], x.v), n), Opp(c))     \* along -u, to the mirror's plane
                p == At(x.v, tt, VNeg(u))
            IN Chk(VClose(v[1], p, Eps(16)), "C20", "mirror-is-not-at-its-position")
               \cup Chk(VClose(d[1], Mirror(VNeg(u), n), Eps(16)), "C20", "reflected-in-the-wrong-direction")
               \cup Chk(~x.sun \/ sun = V0 \/ Norm2(x.off) # ZERO \/ VClose(d[1], Unit(VSub(goal, fd.pos[k])), Eps(16)), "C20", "sun-not-sent-to-the-target")
               \cup Chk(Close(x.out[1].e, Mul(x.e, Sub(ONE, st.a)), Eps(28)), "C20", "energy")

StaggerFails(st) ==
    IF st.exc # "" THEN { << "C20", "exception-in-stagger" >> }
    ELSE LET da == Mul(HALF, st.az)
             nr == CountBelow(st.rmin, st.dr, st.rmax, 0)
             na == CountBelow(st.a0, da, st.a1, 0)
             L == Stagger(nr, na)
             row(i_) == Add(st.rmin, Mul(FromInt(i_), st.dr))
             dirs == TurnList(<< st.cs0 >>, st.csh, na)
             at(x) == << Mul(row(x[1]), dirs[x[2] + 1][1]), Mul(row(x[1]), dirs[x[2] + 1][2]) >>
             near(o, p) == Close(o[1], p[1], Eps(20)) /\ Close(o[2], p[2], Eps(20))
         IN IF ~Clear(st.rmin, st.dr, st.rmax, nr) \/ ~Clear(st.a0, da, st.a1, na) \/ nr > 300 \/ na > 300 THEN {}
            ELSE Chk(Len(st.out) = Cardinality(L), "C20", "number-of-heliostats-in-the-layout")
                 \cup Chk(Len(st.out) # Cardinality(L) \/ ((\A k \in 1..Len(st.out) : Len(st.out[k]) = 2)
                          /\ \A x \in L : LET p == at(x) IN \E k \in 1..Len(st.out) : near(st.out[k], p)), "C20", "layout")

After(st) == CASE st.op = "build" -> Built(st.pos, st.th)
               [] st.op = "raise" -> Raised(fd, st.h)
               [] st.op = "aim"   -> Aimed(fd, Sun(st.ca, st.sa, st.ce, st.se))
               [] OTHER -> fd
StepFails(st) ==
    IF st.exc # "" THEN { << "C20", "exception-in-" \o st.op >> }
    ELSE CASE st.op = "look" -> LookFails(st)
           [] st.op = "shoot" -> UNION { ShotFails(st, Chain(st.chain), st.shots[x]) : x \in 1..Len(st.shots) }
           [] st.op = "sun" -> Chk(Len(st.out) = 3 /\ VClose(st.out, Sun(st.ca, st.sa, st.ce, st.se), Eps(18)), "C20", "solar-vector")
           [] st.op = "stagger" -> StaggerFails(st)
           [] OTHER -> {}

Init == s \in 1..Len(Scen) /\ i = 0 /\ TallyInit /\ fd = Built(<<>>, ZERO) /\ sun = V0 /\ goal = V0
Next == /\ i < Len(Steps(s))
        /\ LET st == Steps(s)[i + 1]
           IN /\ Report(StepFails(st))
              /\ fd' = TLCEval(After(st))
              /\ sun' = IF st.op = "aim" THEN Sun(st.ca, st.sa, st.ce, st.se) ELSE IF st.op = "build" THEN V0 ELSE sun
              /\ goal' = IF st.op = "aim" THEN Target(fd) ELSE goal
              /\ IF st.op = "shoot" THEN Tally(1, Len(st.shots)) ELSE TRUE
        /\ i' = i + 1 /\ s' = s
Spec == Init /\ [][Next]_<<s, i, fd, sun, goal>>
=============================================================================
