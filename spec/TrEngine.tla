------------------------------ MODULE TrEngine ------------------------------
(***************************************************************************)
(* Judges recorded runs of the real engine on abstract scenes against the  *)
(* meaning of a trace given in Engine.tla.  One step = one run.            *)
(***************************************************************************)
EXTENDS TrBase, Vec

E == INSTANCE Engine WITH sc <- 0, bund <- 0, tree <- 0, folw <- 0, it <- 0, pc <- 0,
                          todo <- 0, shown <- 0, front <- 0, parts <- 0

Idx(b) == 1..b.n
Axis == << << ONE, ZERO, ZERO >>, << ZERO, ONE, ZERO >>, << ZERO, ZERO, ONE >>,
           << Opp(ONE), ZERO, ZERO >>, << ZERO, Opp(ONE), ZERO >>, << ZERO, ZERO, Opp(ONE) >> >>
AxisOf(m) == Axis[((m - 1) % 6) + 1]

WellFormed(b, M) ==
    /\ Len(b.m) = b.n /\ Len(b.e) = b.n /\ Len(b.par) = b.n /\ Len(b.via) = b.n
    /\ Len(b.src) = b.n /\ Len(b.v) = b.n /\ Len(b.d) = b.n /\ Len(b.pol) = b.n
    /\ \A j \in Idx(b) : b.m[j] \in 1..M /\ Len(b.v[j]) = 3 /\ Len(b.d[j]) = 3

\* rays of bundle b that are followed (the source bundle is followed entirely)
Followed(sc, b, k) == { j \in Idx(b) : k = 1 \/ b.e[j] > sc.min }

\* via of the source rays is 0
From(b, j, k) == IF k = 1 THEN 0 ELSE b.via[j]

BagOf(S, Val(_)) == [ v \in { Val(x) : x \in S } |-> Cardinality({ x \in S : Val(x) = v }) ]

\* One generation: bundle a at level k, b at level k+1.
LevelFails(sc, own, a, b, k) ==
    LET okpar == { j \in Idx(b) : b.par[j] + 1 \in Idx(a) }
        par(j) == b.par[j] + 1
        fol == Followed(sc, a, k)
        hit(p) == E!Hit(sc, a.m[p], From(a, p, k))
        open(p) == E!Open(sc, a.m[p], From(a, p, k))
        kids(p) == { j \in okpar : par(j) = p }
        C5 == IF own THEN {"C05"} ELSE {}
        wrong == { j \in okpar : par(j) \in fol /\ b.via[j] # hit(par(j)) }
    IN  Chk(okpar = Idx(b), "C03", "parent-not-in-previous-bundle")
        \cup Chk(\A j \in okpar : par(j) \in fol, "C04", "discarded-ray-was-followed")
        \cup Chk(\A j \in wrong : b.via[j] \in open(par(j)), "C05", "hit-a-closed-surface")
        \cup ChkAll(wrong = {}, {"C01"} \cup C5, "not-the-nearest-open-surface")
        \cup ChkAll(\A p \in fol : hit(p) # 0 /\ sc.out[a.m[p]][hit(p)] # << >> => kids(p) # {},
                    {"C01", "C04"} \cup C5, "followed-ray-lost")
        \cup Chk(\A p \in fol : hit(p) = 0 => kids(p) = {}, "C01", "escaping-ray-has-descendants")
        \cup ChkAll(\A p \in fol : (hit(p) # 0 /\ kids(p) # {}) =>
                       LET exp == sc.out[a.m[p]][hit(p)]
                       IN BagOf(kids(p), LAMBDA j : << b.m[j], b.e[j] >>)
                          = BagOf(1..Len(exp), LAMBDA j : << exp[j].m, exp[j].e >>),
                    {"C01", "C03"}, "wrong-descendants")
        \cup Chk(\A j \in okpar : b.src[j] = a.src[par(j)] /\ b.pol[j] = a.pol[par(j)]
                                  /\ b.ref[j] = a.ref[par(j)],
                 "C03", "user-property-not-carried-over")
        \cup Chk(\A j \in okpar : b.via[j] \in 1..Len(sc.surf) =>
                    LET p == par(j)
                        dc == sc.dist[a.m[p]][b.via[j]]
                    IN dc < E!MISS => VClose(b.v[j], At(a.v[p], sc.len[dc + 1], a.d[p]), Eps(38)),
                 "C03", "does-not-start-where-parent-hit")
        \cup Chk(\A j \in Idx(b) : VClose(b.d[j], AxisOf(b.m[j]), Eps(38)), "C03", "properties-mixed-up")

\* What the generations are, by meaning alone: the sequence of rays of each
\* generation as records, weak ones included, until nothing is followed.
RECURSIVE Gens(_, _, _)
Gens(sc, cur, n) ==        \* cur: followed rays [m, from, src]
    IF n = 0 THEN << >>
    ELSE LET kid(r) == LET h == E!Hit(sc, r.m, r.from)
                           o == IF h = 0 THEN << >> ELSE sc.out[r.m][h]
                       IN [ c \in 1..Len(o) |-> [ m |-> o[c].m, e |-> o[c].e, from |-> h, src |-> r.src ] ]
             RECURSIVE flat(_)
             flat(x) == IF x > Len(cur) THEN << >> ELSE kid(cur[x]) \o flat(x + 1)
             all == flat(1)
             strong == SelectSeq(all, LAMBDA r : r.e > sc.min)
         IN IF strong = << >> THEN << all >>
            ELSE << all >> \o Gens(sc, strong, n - 1)

SrcSeq(sc) == [ x \in 1..Len(sc.src) |-> [ m |-> sc.src[x].m, from |-> 0, src |-> x ] ]

RaySig(r) == << r.m, r.e, r.from, r.src >>
BSig(b, j) == << b.m[j], b.e[j], b.via[j], b.src[j] >>

\* Protocol of one surface: register (select outgoing)? done, repeatedly;
\* done may come at any time.
RECURSIVE ProtOK(_, _, _)
ProtOK(calls, st, x) ==
    IF x > Len(calls) THEN \A y \in DOMAIN st : st[y] = "idle"
    ELSE LET c == calls[x]
             y == c[1]
             op == c[2]
             nxt == CASE op = "reg" /\ st[y] = "idle" -> "reg"
                      [] op = "sel" /\ st[y] = "reg" -> "sel"
                      [] op = "out" /\ st[y] = "sel" -> "out"
                      [] op = "done" -> "idle"
                      [] OTHER -> "bad"
         IN nxt # "bad" /\ ProtOK(calls, [st EXCEPT ![y] = nxt], x + 1)

\* The chain the history query must report: indices from ray j of level l back to the source.
RECURSIVE Chain(_, _, _)
Chain(lv, l, j) == IF l = 1 THEN << j >>
                   ELSE << j >> \o (IF lv[l].par[j + 1] + 1 \in Idx(lv[l - 1])
                                    THEN Chain(lv, l - 1, lv[l].par[j + 1]) ELSE << >>)

RunFails(sn, r) ==
    LET sc == sn.sc
        M == Len(sc.dist)
        gens == Gens(sc, SrcSeq(sc), sc.reps)
        \* generations that leave a bundle in the tree
        nlev == Cardinality({ g \in 1..Len(gens) : gens[g] # << >> })
        lastg == IF gens = << >> THEN << >> ELSE gens[Len(gens)]
        survivors == IF sc.reps = 0 THEN SrcSeq(sc) ELSE SelectSeq(lastg, LAMBDA x : x.e > sc.min)
        common ==
             Chk(r.same, "C06", "source-bundle-altered")
             \cup Chk(r.frames, "C06", "frame-altered")
             \cup Chk(ProtOK(r.calls, [ y \in 1..Len(sc.surf) |-> "idle" ], 1), "C06", "protocol-order")
             \cup Chk(Len(r.rv) = Len(survivors) /\ Len(r.rd) = Len(survivors), "C04", "returned-rays-count")
    IN IF r.exc # "" THEN { << p, "exception" >> : p \in {"C01", "C02", "C03", "C04", "C05", "C06"} }
       ELSE IF ~(\A k \in 1..Len(r.lv) : WellFormed(r.lv[k], M))
            THEN { << p, "malformed-bundle" >> : p \in {"C01", "C03", "C10"} }
       ELSE common \cup
         IF r.tree
         THEN LET lv == r.lv
                  N == Len(lv)
                  last == lv[N]
                  fol == IF N - 1 < Len(gens) THEN {} ELSE Followed(sc, last, N)
              IN  Chk(N >= 1 /\ lv[1].n = Len(sc.src)
                      /\ \A j \in 1..Len(sc.src) : lv[1].src[j] = j /\ lv[1].m[j] = sc.src[j].m,
                      "C03", "source-is-not-first-level")
                  \cup Chk(N <= sc.reps + 1, "C04", "more-bundles-than-asked")
                  \cup ChkAll(N >= nlev + 1, {"C04", "C01"} \cup (IF sn.own THEN {"C05"} ELSE {}), "trace-ended-early")
                  \cup Chk(N <= nlev + 1, "C04", "trace-went-on")
                  \cup UNION { LevelFails(sc, sn.own, lv[k], lv[k + 1], k) : k \in 1..(N - 1) }
                  \cup Chk(BagOf(1..Len(r.rv), LAMBDA j : << r.rv[j], IF j <= Len(r.rd) THEN r.rd[j] ELSE <<>> >>)
                           = BagOf(fol, LAMBDA j : << last.v[j], last.d[j] >>),
                           "C04", "returned-rays-are-not-those-still-followed")
                  \cup Chk(Len(r.op) = N - 1 /\ \A k \in 1..Len(r.op) : k < N => r.op[k] = lv[k + 1].par,
                           "C03", "ordered-parents")
                  \cup Chk(\A x \in 1..Len(r.hist) :
                              LET h == r.hist[x]
                              IN h.exc = "" /\ h.h = Chain(lv, h.l + 1, h.j),
                           "C03", "history-query")
                  \cup ChkAll(\A k \in 1..(IF N - 1 < Len(gens) THEN N - 1 ELSE Len(gens)) :
                              BagOf(Idx(lv[k + 1]), LAMBDA j : BSig(lv[k + 1], j))
                              = BagOf(1..Len(gens[k]), LAMBDA j : RaySig(gens[k][j])),
                           {"C02"}, "generation-differs-from-tracing-each-ray-alone")
         ELSE Chk(Len(r.lv) = 1, "C04", "one-bundle-without-tree")
              \cup (IF Len(r.lv) = 1
                    THEN LET b == r.lv[1]
                         IN ChkAll(IF sc.reps = 0
                                THEN BagOf(Idx(b), LAMBDA j : << b.m[j], b.src[j] >>)
                                     = BagOf(1..Len(sc.src), LAMBDA j : << sc.src[j].m, j >>)
                                ELSE BagOf(Idx(b), LAMBDA j : BSig(b, j))
                                     = BagOf(1..Len(lastg), LAMBDA j : RaySig(lastg[j])),
                                {"C04", "C01"}, "kept-bundle-is-not-the-last-one")
                    ELSE {})

Init == s \in 1..Len(Scen) /\ i = 0 /\ TallyInit
Next == /\ i < Len(Steps(s))
        /\ Report(RunFails(Scen[s], Steps(s)[i + 1]))
        /\ i' = i + 1
        /\ s' = s
Spec == Init /\ [][Next]_<<s, i>>
=============================================================================
