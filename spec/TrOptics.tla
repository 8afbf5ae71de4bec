------------------------------ MODULE TrOptics ------------------------------
(***************************************************************************)
(* Real surfaces with real optics: rays are registered, selected, sent on; *)
(* receivers are asked and reset in between.  Also the optics functions    *)
(* called directly.                                                        *)
(***************************************************************************)
EXTENDS Optics, TrBase

VARIABLE seen       \* directions drawn so far by a diffuse surface
VARIABLE acc        \* what the receiver must remember: sequence of <<energy, point>>

RECURSIVE Chain(_)
Chain(fs) == IF fs = <<>> THEN MEye ELSE MMul(Head(fs), Chain(Tail(fs)))

Kids(st, j) == SelectSeq(st.out, LAMBDA r : r.par = j - 1)
Sel(st) == { st.sel[k] + 1 : k \in 1..Len(st.sel) }
RayFails(g, o, f, st, j) ==
    AfterFails(g, o, f, [v |-> st.v[j], d |-> st.d[j], e |-> st.e[j], m |-> st.m[j], mark |-> st.mark[j]], st.t[j], Kids(st, j))

\* A ray is handled rightly alone, but not among others: the others made the difference
AloneFails(g, o, f, st) ==
    UNION { LET a == st.alone[k]
                j == a.j
                r == [v |-> st.v[j], d |-> st.d[j], e |-> st.e[j], m |-> st.m[j], mark |-> st.mark[j]]
                kids == [l \in 1..Len(a.out) |-> [a.out[l] EXCEPT !.par = @ + j - 1]]
            IN ChkAll(\/ AfterFails(g, o, f, r, st.t[j], Kids(st, j)) = {} \/ ~IsFin(a.t) \/ AfterFails(g, o, f, r, a.t, kids) # {},
                      {"C02"}, "outcome-depends-on-the-other-rays")
          : k \in 1..Len(st.alone) }

GoFails(sc, st) ==
    LET f == Chain(st.chain)
    IN IF st.exc # "" THEN { << p, "exception" >> : p \in PropsOf(sc.o) \cup {"C07", "C16"} }
       ELSE ChkAll(\A k \in 1..Len(st.out) : st.out[k].par + 1 \in Sel(st), PropsOf(sc.o) \cup {"C03"}, "ray-from-nowhere")
            \cup UNION { IF IsFin(st.t[j]) THEN RayFails(sc.g, sc.o, f, st, j) ELSE {} : j \in Sel(st) }
            \cup AloneFails(sc.g, sc.o, f, st)
            \cup ChkAll(st.same, {"C06"}, "incoming-bundle-changed")

\* bags of hits, compared with tolerance
Near(a, b) == Close(a[1], b[1], ETOL(b[1])) /\ VClose(a[2], b[2], Eps(20))
SameBag(A, B) == /\ Len(A) = Len(B)
                 /\ \A k \in 1..Len(A) : Cardinality({ l \in 1..Len(A) : Near(A[l], A[k]) })
                                       = Cardinality({ l \in 1..Len(B) : Near(B[l], A[k]) })
HitsOf(st) == [k \in 1..Len(st.hits.e) |-> << st.hits.e[k], st.hits.p[k] >>]
QueryFails(st) ==
    IF st.exc # "" THEN { << "C16", "exception" >> }
    ELSE Chk(Len(st.hits.e) = Len(st.hits.p), "C16", "energies-and-positions-do-not-match")
         \cup Chk(Len(st.hits.e) # Len(st.hits.p) \/ SameBag(acc, HitsOf(st)), "C16", "hits-are-not-those-since-the-last-reset")

New(sc, st) ==      \* entries added by an interaction
    LET f == Chain(st.chain)
    IN [k \in 1..Len(st.sel) |-> LET j == st.sel[k] + 1
                                 IN << Kept(sc.o, st.d[j], Col(f, 3), st.e[j]), At(st.v[j], st.t[j], st.d[j]) >>]

(* The optics functions by themselves *)
FLAT == [k |-> "plane"]
FnFails(st) ==
    IF st.exc # "" THEN { << st.prop, "exception-in-" \o st.op >> }
    ELSE LET n == Len(st.d)
         IN CASE st.op = "reflections" ->
                    Chk(Len(st.out) = n /\ \A j \in 1..n : VClose(st.out[j], Mirror(st.d[j], st.n[j]), Eps(24)), "C14", "mirror-law")
              [] st.op = "refractions" ->
                    LET rank(j) == Cardinality({ k \in 1..j : st.mask[k] })
                        c(j) == Cos1(st.d[j], st.n[j])
                    IN Chk(Len(st.mask) = n /\ \A j \in 1..n : LET t == Total3(c(j), st.n1[j], st.n2[j])
                               IN t = "?" \/ (st.mask[j] <=> t = "F"), "C15", "total-reflection")
                       \cup Chk(Len(st.out) = rank(n), "C15", "number-of-refracted-rays")
                       \cup Chk(Len(st.out) # rank(n) \/ \A j \in 1..n : st.mask[j] =>
                               (Total3(c(j), st.n1[j], st.n2[j]) # "F" \/ Lt(c(j), Eps(14))
                                \/ VClose(st.out[rank(j)], Refract(st.d[j], st.n[j], st.n1[j], st.n2[j]), DTol(FLAT, c(j), st.n1[j], st.n2[j]))),
                               "C15", "refracted-direction")
              [] st.op = "fresnel" ->
                    Chk(Len(st.out) = n /\ \A j \in 1..n :
                            LET c == Cos1(st.d[j], st.n[j])
                            IN Total3(c, st.n1[j], st.n2[j]) # "F" \/ Lt(c, Eps(14))
                               \/ Close(st.out[j], Reflectance(c, st.n1[j], st.n2[j]), RTol(FLAT, c, st.n1[j], st.n2[j])), "C15", "shares")
              [] st.op = "hartmann" ->
                    Chk(Len(st.out) = n /\ \A j \in 1..n :
                            Close(st.out[j], Add(st.k[1], Add(Div(st.k[2], Sub(st.k[3], st.d[j])), Div(st.k[4], Sub(st.k[5], st.d[j])))), Eps(24)),
                        "C15", "dispersion-formula")

\* Diffuse directions are drawn for each ray anew: none comes twice (on a flat surface, where normals cannot hide it)
Drawn(sc, st) == IF st.op = "go" /\ st.exc = "" /\ sc.o.k \in {"lamb", "lrecv"} /\ Flat(sc.g)
                 THEN [k \in 1..Len(st.out) |-> st.out[k].d] ELSE <<>>
FreshFails(sc, st) ==
    LET D == Drawn(sc, st)
        S == { D[k] : k \in 1..Len(D) }
    IN Chk(Cardinality(S) = Len(D) /\ S \cap seen = {}, "C17", "a-direction-drawn-twice")

StepFails(sc, st) ==
    FreshFails(sc, st) \cup
    CASE st.op = "go" -> GoFails(sc, st)
      [] st.op = "query" -> QueryFails(st)
      [] st.op = "reset" -> Chk(st.exc = "", "C16", "exception")
      [] OTHER -> FnFails(st)

Init == s \in 1..Len(Scen) /\ i = 0 /\ acc = <<>> /\ seen = {} /\ TallyInit
Next == /\ i < Len(Steps(s))
        /\ LET st == Steps(s)[i + 1]
           IN /\ Report(StepFails(Scen[s], st))
              /\ acc' = IF st.op = "go" /\ st.exc = "" THEN acc \o New(Scen[s], st)
                        ELSE IF st.op = "reset" THEN <<>> ELSE acc
              /\ IF st.op = "go" /\ st.exc = "" THEN Tally(1, Len(st.sel)) /\ Tally(2, Len(st.out)) ELSE TRUE
        /\ LET D == Drawn(Scen[s], Steps(s)[i + 1]) IN seen' = seen \cup { D[k] : k \in 1..Len(D) }
        /\ i' = i + 1
        /\ s' = s
Spec == Init /\ [][Next]_<<s, i, acc, seen>>
=============================================================================
