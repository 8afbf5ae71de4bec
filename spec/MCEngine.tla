------------------------------ MODULE MCEngine ------------------------------
(* Exhaustive check of the engine design over a family of small scenes.     *)
EXTENDS Engine, Json, IOUtils, SequencesExt

Family == IF "VERIF_FAMILY" \in DOMAIN IOEnv THEN IOEnv.VERIF_FAMILY ELSE "a"

Dists == {0, 1, 2, 3, MISS}
R(m, e) == [m |-> m, e |-> e]
\* min energy is 1: energy 2 is followed, 1 and 0 are not
NoOwn(M, S) == [ m \in 1..M |-> [ s \in 1..S |-> FALSE ] ]
AllRel(M, S) == [ m \in 1..M |-> [ s \in 1..S |-> [ j \in 1..S |-> TRUE ] ] ]
Mk(surf, dist, out, own, rel, src, reps) ==
    [ surf |-> surf, dist |-> dist, out |-> out, own |-> own, rel |-> rel,
      src |-> src, reps |-> reps, min |-> 1 ]

\* a: all hit patterns of two marks on two surfaces; splitting and fading
Row2 == { d \in [1..2 -> Dists] : d[1] < 2 \/ d[1] = MISS \/ d[1] # d[2] }
OutsA == { << << <<R(2,2)>>, <<R(1,2), R(2,1)>> >>, << <<R(1,1)>>, <<R(2,2), R(1,2)>> >> >>,
           << << <<R(1,2)>>, <<>> >>, << <<R(2,0), R(1,2)>>, <<R(1,2)>> >> >> }
SrcA == { << R(1,2), R(2,2), R(1,1) >>, << R(2,2) >> }
FamA == { Mk(su, << d1, d2 >>, o, NoOwn(2,2), AllRel(2,2), sr, rp) :
            su \in { <<1,1>>, <<1,2>> }, d1 \in Row2, d2 \in Row2, o \in OutsA,
            sr \in SrcA, rp \in {0, 2, 3} }

\* b: ownership and relevancy answers of an object with two surfaces next to another
Row3 == { << 2, 3, 4 >>, << 3, 2, 4 >>, << 4, 3, 2 >>, << 0, 3, 2 >>, << 2, 1, 3 >>, << MISS, 2, 3 >> }
OutB == << << <<R(2,2)>>, <<R(1,2), R(2,2)>>, <<R(2,2), R(1,1)>> >>,
           << <<R(1,2)>>, <<R(2,2)>>, <<R(1,1), R(2,2)>> >> >>
Own3 == { [ m \in 1..2 |-> << a[m], b[m], c[m] >> ] :
            a \in [1..2 -> BOOLEAN], b \in [1..2 -> BOOLEAN], c \in { << FALSE, FALSE >>, << TRUE, FALSE >> } }
Rel3 == { [ m \in 1..2 |-> [ s \in 1..3 |-> [ j \in 1..3 |->
              IF j <= 2 /\ s <= 2 THEN x[m][s][j] ELSE y ] ] ] :
            x \in [ 1..2 -> { << << TRUE, TRUE >>, << TRUE, TRUE >> >>,
                              << << FALSE, TRUE >>, << TRUE, FALSE >> >>,
                              << << FALSE, FALSE >>, << TRUE, TRUE >> >> } ],
            y \in BOOLEAN }
FamB == { Mk(<<1,1,2>>, << d1, d2 >>, OutB, ow, re, << R(1,2), R(2,2) >>, 3) :
            d1 \in Row3, d2 \in Row3, ow \in Own3, re \in Rel3 }

\* smaller families for every-change runs
FamQA == { x \in FamA : x.reps # 3 /\ Len(x.src) = 3 /\ x.dist[2][1] # 1 /\ x.surf = <<1,2>> }
FamQB == { Mk(<<1,1,2>>, << d1, d2 >>, OutB, ow, re, << R(1,2), R(2,2) >>, 2) :
            d1 \in { << 2, 3, 4 >>, << 4, 3, 2 >> }, d2 \in { << 3, 2, 4 >>, << 0, 3, 2 >> },
            ow \in { o \in Own3 : ~o[1][3] }, re \in { r \in Rel3 : ~r[1][3][3] } }
Scenes == CASE Family = "a" -> FamA [] Family = "b" -> FamB
            [] Family = "qa" -> FamQA [] Family = "qb" -> FamQB

MCInit == \E x \in Scenes : InitWith(x)
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
ASSUME \A x \in Scenes : NoTies(x)

\* Every scene of the family, for replay in the code.
Dump == IF "VERIF_DUMP" \in DOMAIN IOEnv
        THEN ndJsonSerialize(IOEnv.VERIF_DUMP, SetToSeq(Scenes)) ELSE TRUE
=============================================================================
