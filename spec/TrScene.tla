------------------------------ MODULE TrScene ------------------------------
(***************************************************************************)
(* Whole traces through real scenes.  The reference tracer (Scene) decides *)
(* for every followed ray of every recorded bundle what it meets first and *)
(* what must come of it.                                                   *)
(***************************************************************************)
EXTENDS Models, TrBase

VARIABLES S,        \* the scene as it stands now
          acc,      \* books: account -> sequence of <<energy, point>> since the last reset
          sure,     \* can the books be foretold?
          ref,      \* reference run: [lv, shaky marks]
          flow      \* energy since the last reset: << emitted, in rays without descendants >>

RECURSIVE Chain(_)
Chain(fs) == IF fs = <<>> THEN MEye ELSE MMul(Head(fs), Chain(Tail(fs)))

RECURSIVE Whole(_, _, _)
Whole(sc, st, k) == IF k > Len(st.ch) THEN <<>>      \* the parts there so far
                    ELSE Expand(sc.parts[k], Chain(st.ch[k]), st.sf[k], << k, 0 >>) \o Whole(sc, st, k + 1)
Rows(q) == [k \in 1..Len(q) |-> q[k]]

OkBundle(b) == Len(b.par) = b.n /\ Len(b.v) = b.n /\ Len(b.d) = b.n /\ Len(b.e) = b.n /\ Len(b.m) = b.n /\ Len(b.mark) = b.n /\ Len(b.strong) = b.n
               /\ \A j \in 1..b.n : Len(b.v[j]) = 3 /\ Len(b.d[j]) = 3
Rec(b, j) == [v |-> b.v[j], d |-> b.d[j], e |-> b.e[j], m |-> b.m[j], mark |-> b.mark[j]]

Followed(run, k, b, j) == IF k = 1 \/ b.strong[j] THEN "T" ELSE "F"

\* the surface each ray of the next level left
NextFrom(fst, b) == [j \in 1..b.n |-> LET p == b.par[j] + 1 IN IF p \in 1..Len(fst) /\ fst[p].k = "hit" THEN fst[p].y ELSE -1]

SeqOf(X) == LET RECURSIVE go(_) go(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : \A z \in T : y <= z IN << x >> \o go(TLCEval(T \ {x})) IN go(TLCEval(X))

\* one generation: bundle a (level k), with fst what its rays meet first; b the next bundle (or an empty one)
LevelFails(run, k, a, fst, b) ==
    LET kid(p) == LET q == SeqOf({ j \in 1..b.n : b.par[j] + 1 = p }) IN [x \in 1..Len(q) |-> Rec(b, q[x])]
        one(p) ==
            LET ks == TLCEval(kid(p))
                F == fst[p]
                fo == Followed(run, k, a, p)
                at == At(a.v[p], F.t, a.d[p])
            IN IF fo = "F" THEN Chk(ks = <<>>, "C04", "discarded-ray-was-followed")
               ELSE IF F.k = "none" THEN Chk(ks = <<>>, "C01", "escaping-ray-has-descendants")
               ELSE IF F.k = "?" THEN
                    ChkAll((\E y \in 1..Len(S) : ~Single(S[y])) \/ Len(ks) <= 1, {"C01", "C07"}, "handled-by-more-than-one-surface")
               ELSE IF ks = <<>> THEN ChkAll(FALSE, {"C01", "C04"}, "followed-ray-lost")
               ELSE IF \E x \in 1..Len(ks) : ~VClose(ks[x].v, at, Eps(18)) THEN ChkAll(FALSE, {"C01", "C03"}, "not-the-nearest-surface")
               ELSE AfterFails(S[F.y].g, S[F.y].o, S[F.y].f, Rec(a, p), F.t, ks)
    IN  Chk(\A j \in 1..b.n : b.par[j] + 1 \in 1..a.n, "C03", "parent-not-in-previous-bundle")
        \cup UNION { one(p) : p \in 1..a.n }

\* what the receivers must have booked in that generation
RECURSIVE Booking(_, _, _, _, _, _)
Booking(run, k, a, fst, p, B) ==
    IF p > a.n THEN B
    ELSE Booking(run, k, a, fst, p + 1, TLCEval(
         IF Followed(run, k, a, p) # "F" /\ fst[p].k = "hit" /\ S[fst[p].y].acct > 0
            /\ Booked(S[fst[p].y].o, a.d[p], Col(S[fst[p].y].f, 3))
         THEN [B EXCEPT ![S[fst[p].y].acct] = Append(@, << Kept(S[fst[p].y].o, a.d[p], Col(S[fst[p].y].f, 3), a.e[p]),
                                                         At(a.v[p], fst[p].t, a.d[p]) >>)]
         ELSE B))

Unsure(run, k, a, fst) == { a.mark[p] : p \in { x \in 1..a.n :
        (Followed(run, k, a, x) = "T" /\ (fst[x].k = "?"
              \/ (fst[x].k = "hit" /\ NoSide(S[fst[x].y].o, a.d[x], Col(S[fst[x].y].f, 3))))) } }

EMPTYB == [n |-> 0, par |-> <<>>, v |-> <<>>, d |-> <<>>, e |-> <<>>, m |-> <<>>, mark |-> <<>>, strong |-> <<>>]

\* walk over the levels: fails, books, shaky marks, counts
RECURSIVE Walk(_, _, _, _)
Walk(run, k, from, res) ==
    IF k > Len(run.lv) \/ k > run.reps THEN res
    ELSE LET a == run.lv[k]
             b == IF k < Len(run.lv) THEN run.lv[k + 1] ELSE EMPTYB
             fst == TLCEval([j \in 1..a.n |-> IF Followed(run, k, a, j) = "F" THEN NOTHING ELSE First(S, a.v[j], a.d[j], from[j])])
             lf == LevelFails(run, k, a, fst, b)
         IN Walk(run, k + 1, TLCEval(NextFrom(fst, b)),
                 TLCEval([fails |-> res.fails \cup lf,
                  books |-> Booking(run, k, a, fst, 1, res.books),
                  shaky |-> res.shaky \cup Unsure(run, k, a, fst),
                  dec |-> res.dec + Cardinality({ j \in 1..a.n : fst[j].k = "hit" }),
                  esc |-> res.esc + Cardinality({ j \in 1..a.n : fst[j].k = "none" /\ Followed(run, k, a, j) # "F" }),
                  und |-> res.und + Cardinality({ j \in 1..a.n : fst[j].k = "?" })]))

\* two runs, ray by ray, by the marks of the source rays
PTOL == Eps(24)
Same(a, j, b, l) == /\ a.mark[j] = b.mark[l] /\ a.m[j] = b.m[l] /\ Close(a.e[j], b.e[l], Add(PTOL, Mul(PTOL, Abs(a.e[j]))))
                    /\ VClose(a.v[j], b.v[l], PTOL) /\ VClose(a.d[j], b.d[l], PTOL)
LvOf(lv, k) == IF k <= Len(lv) THEN lv[k] ELSE EMPTYB
Count(b, x) == Cardinality({ j \in 1..b.n : b.mark[j] = x })
PathsAgree(lv1, shaky, lv2) ==
    LET marks == { lv2[1].mark[j] : j \in 1..lv2[1].n } \ shaky
        mult(x) == Count(lv2[1], x)
        n == IF Len(lv1) > Len(lv2) THEN Len(lv1) ELSE Len(lv2)
    IN \A k \in 1..n : \A x \in marks :
          LET a == LvOf(lv1, k) b == LvOf(lv2, k)
          IN /\ Count(b, x) = mult(x) * Count(a, x)
             /\ \A j \in 1..a.n : a.mark[j] = x =>
                   Cardinality({ l \in 1..b.n : Same(a, j, b, l) }) = mult(x) * Cardinality({ l \in 1..a.n : Same(a, j, a, l) })

\* energy of a whole run: sources = rays without descendants + kept by the books, if everything that absorbs keeps books
Closed == \A y \in 1..Len(S) : S[y].o.k \in {"mirror", "refr", "recv", "lrecv"}
Leaves(run) == UNION { { << k, j >> : j \in { x \in 1..run.lv[k].n :
                   k = Len(run.lv) \/ \A l \in 1..run.lv[k + 1].n : run.lv[k + 1].par[l] # x - 1 } } : k \in 1..Len(run.lv) }
SumSet(X, E(_)) == LET RECURSIVE go(_, _) go(T, z) == IF T = {} THEN z ELSE LET x == CHOOSE y \in T : TRUE IN go(TLCEval(T \ {x}), TLCEval(Add(z, E(x)))) IN go(TLCEval(X), ZERO)
Flow(run) == << SumSeq(run.lv[1].e), SumSet(Leaves(run), LAMBDA x : run.lv[x[1]].e[x[2]]) >>
LedgerFails(st) ==
    IF st.exc # "" THEN { << "C16", "exception" >> }
    ELSE Chk(~(sure /\ Closed) \/ Close(flow[1], Add(flow[2], SumSeq(st.got)), Add(Eps(26), Mul(Eps(26), flow[1]))),
             "C07", "emitted-is-not-absorbed-plus-escaped-plus-travelling")

RunFails(run, W) ==
    LET src == run.lv[1]
    IN W.fails
       \cup Chk(run.same, "C06", "source-bundle-altered")
       \cup Chk(run.frames, "C06", "frame-altered")
       \cup Chk(Len(run.lv) <= run.reps + 1, "C04", "more-bundles-than-asked")
       \cup Chk(src.n = Len(run.src.mark) /\ \A j \in 1..src.n : src.mark[j] = run.src.mark[j] /\ src.v[j] = run.src.v[j], "C03", "source-is-not-first-level")
       \cup (IF run.cmp = "" \/ ref = <<>> THEN {}
             ELSE Chk(PathsAgree(ref[1].lv, ref[1].shaky, run.lv), run.cmp, "path-differs"))

BlankBooks == [x \in 1..6 |-> <<>>]
ExcProps == {"C01", "C02", "C03", "C04", "C06", "C07", "C16"}
TraceFails(run) ==
    IF run.exc # "" THEN { << p, "exception" >> : p \in ExcProps }
    ELSE IF Len(run.lv) = 0 \/ \E k \in 1..Len(run.lv) : ~OkBundle(run.lv[k]) THEN { << p, "malformed-bundle" >> : p \in ExcProps }
    ELSE {}

Near(a, b) == Close(a[1], b[1], ETOL(b[1])) /\ VClose(a[2], b[2], Eps(18))
SameBag(A, B) == /\ Len(A) = Len(B)
                 /\ \A k \in 1..Len(A) : Cardinality({ l \in 1..Len(A) : Near(A[l], A[k]) })
                                       = Cardinality({ l \in 1..Len(B) : Near(B[l], A[k]) })
HitsOf(st) == [k \in 1..Len(st.hits.e) |-> << st.hits.e[k], st.hits.p[k] >>]
QueryFails(st) ==
    IF st.exc # "" THEN { << "C16", "exception" >> }
    ELSE Chk(Len(st.hits.e) = Len(st.hits.p), "C16", "energies-and-positions-do-not-match")
         \cup Chk(~sure \/ Len(st.hits.e) # Len(st.hits.p) \/ SameBag(acc[st.acct], HitsOf(st)), "C16", "hits-are-not-those-since-the-last-reset")

(* Lenses: what an axial ray, a paraxial ray and the lens itself say *)
AxisFails(sc, st) ==
    IF st.exc # "" THEN { << "C21", "exception" >> }
    ELSE LET f == FocalLength(st.m)
             focus == Sub(st.v[3], Mul(Div(st.d[3], st.d[1]), st.v[1]))
             tol == Mul(Eps(10), MaxN(ONE, Abs(f)))
         IN Chk(CloseR(st.f, f, Eps(22)), "C21", "focal-length")
            \cup Chk(~sc.thick \/ Close(Sub(st.front, st.back), st.m.depth, Eps(20)), "C21", "axial-thickness")
            \cup Chk(~sc.focus \/ Close(focus, Opp(f), tol), "C21", "back-focal-point")

(* Dishes: flux map, dimensions *)
\* bin of x in edges; 0 if too close to an edge to tell
BinOf(x, ed) == LET c == { k \in 1..(Len(ed) - 1) : Gt(x, Add(ed[k], Eps(30))) /\ Lt(x, Sub(ed[k + 1], Eps(30))) }
                IN IF c = {} THEN 0 ELSE CHOOSE k \in c : TRUE
EdgesOK(ed, n, side) == Len(ed) = n + 1 /\ \A k \in 1..(n + 1) :
        Close(ed[k], Sub(Div(Mul(side, FromInt(k - 1)), FromInt(n)), H(side)), Eps(30))
MapFails(st) ==
    IF st.exc # "" THEN { << "C23", "exception" >> }
    ELSE LET n == st.bins
             rec == CHOOSE y \in 1..Len(S) : S[y].acct = st.acct
             loc == TLCEval([k \in 1..Len(acc[st.acct]) |-> ToLocal(S[rec].f, acc[st.acct][k][2])])
             bin == TLCEval([k \in 1..Len(loc) |-> << BinOf(loc[k][1], st.xe), BinOf(loc[k][2], st.ye) >>])
             hits(a, b) == { k \in 1..Len(bin) : bin[k] = << a, b >> }
             total == SumSeq([k \in 1..Len(acc[st.acct]) |-> acc[st.acct][k][1]])
             shape == Len(st.H) = n /\ \A a \in 1..Len(st.H) : Len(st.H[a]) = n
             stay == \A k \in 1..Len(bin) : bin[k][1] > 0 /\ bin[k][2] > 0
         IN Chk(st.parts, "C23", "parts-not-reported") \cup Chk(Len(st.dims) = 2 /\ CloseR(st.dims[1], st.want[1], Eps(30)) /\ CloseR(st.dims[2], st.want[2], Eps(30)), "C23", "external-dimensions")
            \cup Chk(shape /\ EdgesOK(st.xe, n, st.sx) /\ EdgesOK(st.ye, n, st.sy), "C23", "bins")
            \cup (IF ~sure \/ ~shape THEN {}
                  ELSE Chk(Close(SumSeq([a \in 1..n |-> SumSeq(st.H[a])]), total, ETOL(Mul(TWO, total))), "C23", "map-does-not-sum-to-the-absorbed-energy")
                       \cup (IF ~(EdgesOK(st.xe, n, st.sx) /\ EdgesOK(st.ye, n, st.sy)) \/ ~stay THEN {}
                             ELSE Chk(\A a \in 1..n : \A b \in 1..n :
                                      Close(st.H[a][b], SumSet(hits(a, b), LAMBDA k : acc[st.acct][k][1]), ETOL(Mul(TWO, total))), "C23", "energy-in-the-wrong-bin")))
\* standard dimensions: 45 degrees rim angle, receiver size from the concentration, homogenizer height
StdFails(st) ==
    IF st.exc # "" \/ Len(st.got) # 3 THEN { << "C23", "exception" >> }
    ELSE LET f == st.got[1]  W == st.got[2]  h == st.got[3]
         IN Chk(CloseR(Mul(Mul(FromInt(4), f), Sub(Sqrt(TWO), ONE)), st.D, Eps(28)), "C23", "rim-angle")
            \cup Chk(CloseR(Mul(Sq(W), st.conc), Mul(st.pi, Sq(H(st.D))), Eps(22)), "C23", "concentration")
            \cup Chk(CloseR(Mul(h, Sub(st.D, Mul(FromInt(st.n), W))), Mul(Mul(FromInt(st.n), W), f), Eps(24)), "C23", "homogenizer-height")

\* a failure of a model's scene is a failure of the model's property, too
Tag(sc, fs) == fs \cup (IF sc.prop = "" THEN {} ELSE { << sc.prop, f[2] >> : f \in fs })

Init == s \in 1..Len(Scen) /\ i = 0 /\ S = <<>> /\ acc = BlankBooks /\ sure = TRUE /\ ref = <<>> /\ flow = << ZERO, ZERO >> /\ TallyInit

DoTrace(sc, st) ==
    LET bad == TraceFails(st)
    IN IF bad # {}
       THEN Report(Tag(sc, bad)) /\ sure' = FALSE /\ UNCHANGED << S, acc, ref, flow >>
       ELSE LET W == TLCEval(Walk(st, 1, [j \in 1..st.lv[1].n |-> 0],
                          [fails |-> {}, books |-> acc, shaky |-> {}, dec |-> 0, esc |-> 0, und |-> 0]))
            IN /\ Report(Tag(sc, RunFails(st, W)))
               /\ acc' = W.books
               /\ sure' = (sure /\ W.shaky = {})
               /\ ref' = IF st.keep THEN << [lv |-> st.lv, shaky |-> W.shaky] >> ELSE ref
               /\ S' = S
               /\ flow' = << Add(flow[1], Flow(st)[1]), Add(flow[2], Flow(st)[2]) >>
               /\ Tally(1, W.dec) /\ Tally(2, W.esc) /\ Tally(3, W.und)
               /\ IF st.cmp # "" THEN Tally(4, 1) ELSE TRUE

Next == /\ i < Len(Steps(s))
        /\ LET st == Steps(s)[i + 1]
               sc == Scen[s]
           IN CASE st.op = "place" -> S' = TLCEval(Whole(sc, st, 1)) /\ Report(ChkAll(st.exc = "", {"C08", "C06"} \cup (IF sc.prop = "" THEN {} ELSE {sc.prop}), "exception")) /\ UNCHANGED << acc, sure, ref, flow >>
                [] st.op = "trace" -> DoTrace(sc, st)
                [] st.op = "query" -> /\ Report(Tag(sc, QueryFails(st))) /\ UNCHANGED << S, acc, sure, ref, flow >>
                                      /\ IF sure THEN Tally(5, 1) ELSE Tally(6, 1)
                [] st.op = "ledger" -> /\ Report(Tag(sc, LedgerFails(st))) /\ UNCHANGED << S, acc, sure, ref, flow >>
                                       /\ IF sure /\ Closed THEN Tally(7, 1) ELSE TRUE
                [] st.op \in {"axis", "map", "std"} ->
                       /\ Report(CASE st.op = "axis" -> AxisFails(sc, st) [] st.op = "map" -> MapFails(st) [] OTHER -> StdFails(st))
                       /\ UNCHANGED << S, acc, sure, ref, flow >> /\ Tally(8, 1)
                [] st.op = "reset" -> /\ Report(Chk(st.exc = "", "C16", "exception"))
                                      /\ acc' = BlankBooks /\ sure' = TRUE /\ flow' = << ZERO, ZERO >> /\ UNCHANGED << S, ref >>
        /\ i' = i + 1
        /\ s' = s
Spec == Init /\ [][Next]_<<s, i, S, acc, sure, ref, flow>>
=============================================================================
