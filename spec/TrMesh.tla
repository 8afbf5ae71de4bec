------------------------------- MODULE TrMesh -------------------------------
(* Meshes of real surfaces in real frames. *)
EXTENDS Mesh, TrBase
RECURSIVE Chain(_)
Chain(fs) == IF fs = <<>> THEN MEye ELSE MMul(Head(fs), Chain(Tail(fs)))

StepFails(sc, st) ==
    IF st.exc # "" THEN { << "C24", "exception" >> }
    ELSE IF Gt(FromInt(st.count), MostPoints(sc.g, st.h)) THEN { << "C24", "more-points-than-the-resolution-calls-for" >> }
    ELSE IF ~st.shape \/ Len(st.pts) = 0 THEN { << "C24", "not-a-mesh" >> }
    ELSE LET f == Chain(st.chain)
             P == TLCEval([k \in 1..Len(st.pts) |-> ToLocal(f, st.pts[k])])
         IN Chk(\A k \in 1..Len(P) : OnIt(sc.g, P[k]), "C24", "point-off-the-surface")
            \cup Chk(\A k \in 1..Len(P) : Outline(sc.g, P[k], st.h), "C24", "point-outside-the-outline")
            \cup Chk(Connected(sc.g, P, st.rows, Len(P) \div st.rows, st.h), "C24", "neighbours-far-apart")
            \cup Chk(Cornered(sc.g, P), "C24", "corner-missing")
            \cup Chk(\A x \in 1..Len(st.samp) : OfSurface(sc.g, st.samp[x]) => Spanned(sc.g, P, st.samp[x], st.h), "C24", "surface-not-spanned")

Init == s \in 1..Len(Scen) /\ i = 0 /\ TallyInit
Next == /\ i < Len(Steps(s))
        /\ LET st == Steps(s)[i + 1]
           IN /\ Report(StepFails(Scen[s], st))
              /\ Tally(1, Len(st.pts)) /\ Tally(2, Cardinality({ x \in 1..Len(st.samp) : OfSurface(Scen[s].g, st.samp[x]) }))
        /\ i' = i + 1 /\ s' = s
Spec == Init /\ [][Next]_<<s, i>>
=============================================================================
