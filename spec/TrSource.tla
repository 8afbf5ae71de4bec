------------------------------ MODULE TrSource ------------------------------
(* Bundles made by the sources; directions given by diffuse optics, in bulk. *)
EXTENDS Source, Geometry, TrBase

RECURSIVE Chain(_)
Chain(fs) == IF fs = <<>> THEN MEye ELSE MMul(Head(fs), Chain(Tail(fs)))
ETol(e) == Mul(Eps(28), MaxN(ONE, Abs(e)))

DiskFails(st) ==
    LET n == st.n
    IN Chk(Len(st.v) = n /\ Len(st.d) = n, "C18", "number-of-rays")
       \cup Chk(\A j \in 1..Len(st.v) : OnDisc(st.v[j], st.c, st.dir, st.R), "C18", "starts-off-the-disc")
       \cup Chk(\A j \in 1..Len(st.d) : IsUnit(st.d[j], Eps(28)), "C18", "direction-not-unit")
       \cup Chk(\A j \in 1..Len(st.d) : InCone(st.d[j], st.dir, st.ca, st.sa), "C18", "direction-outside-the-cone")
       \cup Chk(AllDifferent(st.v) /\ (Gt(st.sa, Eps(14)) => AllDifferent(st.d)), "C18", "rays-repeated")
       \cup Chk(~st.flux \/ (Len(st.e) = n /\ \A j \in 1..Len(st.e) :
                    CloseR(Mul(FromInt(n), st.e[j]), Mul(Mul(st.pi, st.F), Sq(st.R)), Eps(20))), "C18", "energy")
PillFails(st) ==
    Chk(Len(st.d) = st.n /\ \A j \in 1..Len(st.d) : IsUnit(st.d[j], Eps(28)) /\ InCone(st.d[j], st.dir, st.ca, st.sa), "C18", "sunshape-directions")
\* spread of a big sample
Spots(st) == LET sd == Side(st.dir) IN TLCEval([j \in 1..Len(st.v) |-> Across(sd, VSub(st.v[j], st.c), st.R)])
Heads(st) == LET sd == Side(st.dir) IN TLCEval([j \in 1..Len(st.d) |-> Across(sd, st.d[j], st.sa)])
SpreadFails(st) ==
    LET H == Heads(st)
        P == IF st.op = "disk" THEN Spots(st) ELSE H
    IN Chk(Gt(st.sa, Eps(14)) => AllDifferent(st.d), "C18", "rays-repeated")
       \cup Chk(UniformDisc(P), "C18", "starts-not-uniform-over-the-disc")
       \cup Chk(Gt(st.sa, Eps(14)) => UniformDisc(H), "C18", "directions-not-spread-as-a-pillbox")
       \cup Chk(Gt(st.sa, Eps(14)) => (st.op = "disk" => Unrelated(P, H)), "C18", "starts-and-directions-related")
       \cup Chk(Unrelated(P, Shifted(P, 1)) /\ (Gt(st.sa, Eps(14)) => Unrelated(H, Shifted(H, 1))), "C18", "rays-related-to-their-neighbours")
\* side is the number of points along an edge
SquareFails(st) ==
    Chk(Len(st.v) = Len(st.d) /\ Len(st.v) > 0, "C18", "as-many-directions-as-starts")
    \cup Chk(Len(st.v) = st.side * st.side, "C18", "number-of-rays")
    \cup Chk(\A j \in 1..Len(st.d) : VClose(st.d[j], st.dir, Eps(28)), "C18", "not-parallel")
    \cup Chk(\A j \in 1..Len(st.v) : Close(Dot(VSub(st.v[j], st.c), st.dir), ZERO, Eps(22)), "C18", "starts-off-the-plane")
    \cup Chk(\A j \in 1..Len(st.v) : Le(Norm(VSub(st.v[j], st.c)), Add(Mul(st.w, Sqrt(TWO)), Eps(20))), "C18", "starts-outside-the-square")
    \cup Chk(Len(st.v) # st.side * st.side \/ Grid(st.v, st.dir, st.side, Div(Mul(TWO, st.w), Sqrt(FromInt(st.n))), st.c, st.w), "C18", "not-a-regular-square-grid")

(* Diffuse reflections in bulk: the directions about the normals that face the incoming rays *)
Facing(g, f, p, d) == LET m == Unit(RotDir(f, Grad(g, ToLocal(f, p)))) IN IF Gt(Dot(m, d), ZERO) THEN VNeg(m) ELSE m
DiffuseFails(st0) ==
    LET f == Chain(st0.chain)
        Graze(o) == LET m == Facing(st0.g, f, o.v, st0.d[o.par + 1]) IN ~Lt(Dot(m, st0.d[o.par + 1]), Opp(Eps(12)))
        \* grazing rays have no side
        st == [st0 EXCEPT !.out = TLCEval(SelectSeq(st0.out, LAMBDA o : ~Graze(o)))]
        n == Len(st.out)
        nm == TLCEval([j \in 1..n |-> Facing(st.g, f, st.out[j].v, st.d[st.out[j].par + 1])])
        H == TLCEval([j \in 1..n |-> Across(Side(nm[j]), st.out[j].d, ONE)])
        \* turned about the normal so that the incoming ray is at the same azimuth for all
        inc == TLCEval([j \in 1..n |-> LET w == st.d[st.out[j].par + 1] IN VSub(w, VScale(Dot(w, nm[j]), nm[j]))])
        G == TLCEval([j \in 1..n |-> LET x == Unit(inc[j]) IN << Dot(st.out[j].d, x), Dot(st.out[j].d, Cross(nm[j], x)) >>])
    IN Chk(Len(st0.out) = Len(st0.d), "C17", "number-of-rays")
       \cup Chk(\A j \in 1..n : IsUnit(st.out[j].d, Eps(28)) /\ Gt(Dot(st.out[j].d, nm[j]), Opp(Eps(20))), "C17", "leaves-on-the-wrong-side")
       \cup (IF n < 500 THEN {} ELSE
            Chk(AllDifferent(TLCEval([j \in 1..n |-> << st.out[j].d, Dot(st.out[j].d, nm[j]) >>]))
                /\ AllDifferent(TLCEval([j \in 1..n |-> << Dot(st.out[j].d, nm[j]), H[j] >>])), "C17", "directions-repeated")
       \cup Chk(UniformDisc(H), "C17", "not-the-cosine-law")
       \cup Chk((\A j \in 1..n : Gt(Norm(inc[j]), Eps(8))) => UniformDisc(G), "C17", "depends-on-where-the-ray-came-from")
       \cup Chk(Unrelated(H, Shifted(H, 1)), "C17", "rays-related-to-their-neighbours"))

StepFails(st) ==
    IF st.exc # "" THEN { << IF st.op = "diffuse" THEN "C17" ELSE "C18", "exception-in-" \o st.op >> }
    ELSE Chk(st.same, "C18", "argument-changed") \cup
         CASE st.op = "disk" -> DiskFails(st) \cup (IF st.big /\ DiskFails(st) = {} THEN SpreadFails(st) ELSE {})
           [] st.op = "pill" -> PillFails(st) \cup (IF st.big /\ PillFails(st) = {} THEN SpreadFails(st) ELSE {})
           [] st.op = "square" -> SquareFails(st)
           [] st.op = "diffuse" -> DiffuseFails(st)

Init == s \in 1..Len(Scen) /\ i = 0 /\ TallyInit
Next == /\ i < Len(Steps(s))
        /\ Report(StepFails(Steps(s)[i + 1]))
        /\ IF "d" \in DOMAIN Steps(s)[i + 1] THEN Tally(1, Len(Steps(s)[i + 1].d)) ELSE TRUE
        /\ i' = i + 1 /\ s' = s
Spec == Init /\ [][Next]_<<s, i>>
=============================================================================
