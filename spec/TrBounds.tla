------------------------------ MODULE TrBounds ------------------------------
(* Bounding volumes placed, moved and asked. *)
EXTENDS Bounds, TrBase
RECURSIVE Chain(_)
Chain(fs) == IF fs = <<>> THEN MEye ELSE MMul(Head(fs), Chain(Tail(fs)))

Says(sc, st, f, p) == IF st.whole THEN InExactly(sc.b, f, p) ELSE InVolume(sc.b, f, p)
StepFails(sc, st) ==
    IF st.exc # "" THEN { << "C25", "exception-in-" \o st.op >> }
    ELSE LET f == Chain(st.chain)
         IN Chk(st.same, "C25", "argument-changed") \cup
            CASE st.op = "in" ->
                   Chk(Len(st.ans) = Len(st.pts), "C25", "number-of-answers")
                   \cup Chk(Len(st.ans) # Len(st.pts) \/ \A k \in 1..Len(st.pts) : LET e == Says(sc, st, f, st.pts[k]) IN e = "?" \/ e = st.ans[k], "C25", "wrong-side")
              [] st.op = "rect" ->
                   LET w == CutSquare(Org(f), sc.b.r, st.t)
                   IN Chk(w = << >> \/ (Len(st.ans) = 4 /\ \A k \in 1..4 : Close(st.ans[k], w[k], Eps(20))), "C25", "bounding-rectangle")
              [] OTHER -> {}
Decided(sc, st) == IF st.op # "in" \/ st.exc # "" THEN 0 ELSE Cardinality({ k \in 1..Len(st.pts) : Says(sc, st, Chain(st.chain), st.pts[k]) # "?" })

Init == s \in 1..Len(Scen) /\ i = 0 /\ TallyInit
Next == /\ i < Len(Steps(s))
        /\ Report(StepFails(Scen[s], Steps(s)[i + 1]))
        /\ Tally(1, Decided(Scen[s], Steps(s)[i + 1]))
        /\ IF Steps(s)[i + 1].op = "rect" /\ CutSquare(Org(Chain(Steps(s)[i + 1].chain)), Scen[s].b.r, Steps(s)[i + 1].t) # << >> THEN Tally(2, 1) ELSE TRUE
        /\ i' = i + 1 /\ s' = s
Spec == Init /\ [][Next]_<<s, i>>
=============================================================================
