------------------------------- MODULE TrGeom -------------------------------
(***************************************************************************)
(* Surfaces of the real code, registered with bundles of rays, selected    *)
(* from and asked for points and normals, again and again, with moves in   *)
(* between.                                                                *)
(***************************************************************************)
EXTENDS Geometry, TrBase

RECURSIVE Chain(_)
Chain(fs) == IF fs = <<>> THEN MEye ELSE MMul(Head(fs), Chain(Tail(fs)))

DistProp(g) == IF Flat(g) THEN "C11" ELSE "C12"

NormalFails(g, f, d, p, n) ==
    Chk(NormalUnit(n), "C13", "normal-not-unit")
    \cup Chk(NormalPerp(g, f, p, n), "C13", "normal-not-perpendicular")
    \cup Chk(NormalFaces(n, d), "C13", "normal-faces-away")
NearHit(t) == IsFin(t) /\ Le(t, FromInt(200))

\* A ray asked about alone is answered rightly, and among others is not: the others made the difference
AloneFails(g, f, st) ==
    UNION { LET a == st.alone[k]
                j == a.j
            IN Chk(DistanceOK(g, f, st.v[j], st.d[j], st.t[j]) \/ ~DistanceOK(g, f, st.v[j], st.d[j], a.t), "C02", "distance-depends-on-the-other-rays")
               \cup UNION { IF NearHit(a.t) /\ NearHit(st.t[j]) /\ st.sel[l] + 1 = j
                            THEN ChkAll(\/ NormalFails(g, f, st.d[j], At(st.v[j], st.t[j], st.d[j]), st.nrm[l]) = {}
                                        \/ NormalFails(g, f, st.d[j], At(st.v[j], a.t, st.d[j]), a.n) # {}, {"C02"}, "normal-depends-on-the-other-rays")
                                 \cup ChkAll(\/ VClose(st.pts[l], At(st.v[j], st.t[j], st.d[j]), Eps(20))
                                             \/ ~VClose(a.p, At(st.v[j], a.t, st.d[j]), Eps(20)), {"C02"}, "point-depends-on-the-other-rays")
                            ELSE {} : l \in 1..Len(st.sel) }
          : k \in 1..Len(st.alone) }

StepFails(g, st) ==
    LET f == Chain(st.chain)
        n == Len(st.v)
        dp == DistProp(g)
    IN IF st.exc # "" THEN { << p, "exception" >> : p \in {dp, "C13"} }
       ELSE IF Len(st.t) # n THEN { << dp, "number-of-distances" >> }
       ELSE UNION { IF DistanceOK(g, f, st.v[j], st.d[j], st.t[j]) THEN {}
                    ELSE { << dp, IF st.t[j] = INF THEN "missed-hit" ELSE IF Meet(g, f, st.v[j], st.d[j]).maybe = {} THEN "hit-where-there-is-none" ELSE "wrong-distance" >> }
                  : j \in 1..n }
       \cup Chk(Len(st.pts) = Len(st.sel) /\ Len(st.nrm) = Len(st.sel), dp, "number-of-points-or-normals")
       \cup (IF Len(st.pts) = Len(st.sel) /\ Len(st.nrm) = Len(st.sel)
             THEN UNION { LET j == st.sel[k] + 1
                              p == At(st.v[j], st.t[j], st.d[j])
                          IN IF ~IsFin(st.t[j]) \/ Gt(st.t[j], FromInt(200)) THEN {}
                             ELSE Chk(VClose(st.pts[k], p, Eps(20)), dp, "point-is-not-on-the-ray-at-that-distance")
                                  \cup NormalFails(g, f, st.d[j], p, st.nrm[k])
                        : k \in 1..Len(st.sel) }
                  \cup AloneFails(g, f, st)
             ELSE {})

Decided(g, st) ==     \* rays with a sure answer
    IF st.exc # "" THEN << 0, 0, 0 >>
    ELSE LET f == Chain(st.chain)
             m(j) == Meet(g, f, st.v[j], st.d[j])
         IN << Cardinality({ j \in 1..Len(st.v) : ~m(j).doubt /\ m(j).sure # {} }),
               Cardinality({ j \in 1..Len(st.v) : ~m(j).doubt /\ m(j).maybe = {} }),
               Cardinality({ j \in 1..Len(st.v) : Cardinality(m(j).sure) > 1 }) >>

Init == s \in 1..Len(Scen) /\ i = 0 /\ TallyInit
Next == /\ i < Len(Steps(s))
        /\ Report(StepFails(Scen[s].g, Steps(s)[i + 1]))
        /\ LET c == Decided(Scen[s].g, Steps(s)[i + 1])
           IN Tally(1, c[1]) /\ Tally(2, c[2]) /\ Tally(3, c[3])
        /\ i' = i + 1
        /\ s' = s
Spec == Init /\ [][Next]_<<s, i>>
=============================================================================
