------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* The tracing engine (tracer/tracer_engine.py, TracerEngine.ray_tracer).  *)
(*                                                                         *)
(* The scene is abstract: a ray is known to the surfaces only by its mark, *)
(* and finite tables say where a ray with a given mark meets each surface, *)
(* which rays leave from there, and what the objects answer about them.    *)
(* Every pattern the engine can meet (hits, misses, hits at zero distance, *)
(* splitting, fading, claimed rays, irrelevant surfaces) is such a table.  *)
(*                                                                         *)
(* First part: what the trace of ONE ray means (used to judge the design   *)
(* below and, in TrEngine, to judge the code).  Second part: the design    *)
(* as the code does it - all rays of a bundle together, index arithmetic   *)
(* between the full bundle and what each surface was shown, weak rays      *)
(* moved behind the surviving ones.  The invariants say that the second    *)
(* always amounts to the first.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* -------------------------- a scene ------------------------------------ *)
(* sc.surf[s]        the object surface s belongs to                        *)
(* sc.dist[m][s]     distance class: 0 zero, 1 numerically zero, 2.. real,  *)
(*                   MISS for a miss                                       *)
(* sc.out[m][s]      what leaves surface s when a ray marked m hits it:     *)
(*                   a sequence of records [m, e] (mark and energy)        *)
(* sc.own[m][s]      does the object of s claim a ray marked m leaving s   *)
(* sc.rel[m][s][j]   is surface j relevant for a ray marked m that left s  *)
(*                   (only looked at when j belongs to the object of s)    *)
MISS == 99

Surfs(sc) == 1..Len(sc.surf)

\* Where a ray may go next: from = 0 for source rays, else the surface it left.
Open(sc, m, from) ==
    IF from = 0 THEN Surfs(sc)
    ELSE { s \in Surfs(sc) :
             /\ sc.own[m][from] => sc.surf[s] = sc.surf[from]
             /\ (sc.surf[s] = sc.surf[from]) => sc.rel[m][from][s] }

Cands(sc, m, from) == { s \in Open(sc, m, from) :
                          sc.dist[m][s] >= 2 /\ sc.dist[m][s] < MISS }

Nearest(sc, m, S) == { s \in S : \A t \in S : sc.dist[m][s] <= sc.dist[m][t] }

\* The surface that handles the ray, 0 if it escapes.
Hit(sc, m, from) ==
    LET C == Cands(sc, m, from)
    IN IF C = {} THEN 0 ELSE CHOOSE s \in Nearest(sc, m, C) : TRUE

Children(sc, m, from) ==
    LET h == Hit(sc, m, from)
    IN IF h = 0 THEN << >> ELSE sc.out[m][h]

\* Scenes with a well-defined answer: no two surfaces at the same real distance
\* from rays of the same mark.
NoTies(sc) ==
    \A m \in 1..Len(sc.dist) : \A s, t \in Surfs(sc) :
        (s # t /\ sc.dist[m][s] >= 2 /\ sc.dist[m][s] < MISS)
            => sc.dist[m][s] # sc.dist[m][t]

(* -------------------------- the design --------------------------------- *)
VARIABLES sc,      \* the scene and the arguments of the trace; never changes
          bund,    \* rays being followed, as a sequence
          tree,    \* recorded bundles
          folw,    \* folw[k]: how many rays of tree[k] are followed
          it,      \* iterations done
          pc,      \* "register", "process", "weld", "done"
          todo,    \* surfaces not yet handled in this phase
          shown,   \* shown[s]: indices into bund of the rays surface s was shown
          front,   \* front[s]: positions in shown[s] of the rays that hit s first
          parts    \* what the surfaces processed so far generated

vars == << sc, bund, tree, folw, it, pc, todo, shown, front, parts >>

\* A ray: mark, energy, parent index, surface it left, source ray it stems from.
SrcRay(r, i) == [ m |-> r.m, e |-> r.e, par |-> 0, from |-> 0, src |-> i ]

InitWith(scene) ==
    /\ sc = scene
    /\ bund = [ i \in 1..Len(scene.src) |-> SrcRay(scene.src[i], i) ]
    /\ tree = << bund >>
    /\ folw = << Len(bund) >>
    /\ it = 0
    /\ pc = IF scene.reps = 0 THEN "done" ELSE "register"
    /\ todo = Surfs(scene)
    /\ shown = [ s \in Surfs(scene) |-> << >> ]
    /\ front = [ s \in Surfs(scene) |-> << >> ]
    /\ parts = << >>

\* Sorted sequence of a set of naturals.
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN << >>
             ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z
                  IN << x >> \o Sorted(S \ {x})

\* register_incoming of one surface, on the rays open to it.
Register(s) ==
    /\ pc = "register" /\ s \in todo
    /\ shown' = [ shown EXCEPT ![s] =
                    Sorted({ i \in 1..Len(bund) : s \in Open(sc, bund[i].m, bund[i].from) }) ]
    /\ todo' = todo \ {s}
    /\ UNCHANGED << sc, bund, tree, folw, it, pc, front, parts >>

\* The first hit of every ray, over all surfaces.
Decide ==
    /\ pc = "register" /\ todo = {}
    /\ LET d(s, i) == LET x == sc.dist[bund[i].m][s] IN IF x <= 1 THEN MISS ELSE x
           tested(i) == { s \in Surfs(sc) : \E k \in 1..Len(shown[s]) : shown[s][k] = i }
           best(i) == CHOOSE x \in { d(s, i) : s \in tested(i) } \cup {MISS} :
                        \A s \in tested(i) : x <= d(s, i)
       IN front' = [ s \in Surfs(sc) |->
                       Sorted({ k \in 1..Len(shown[s]) :
                                  /\ d(s, shown[s][k]) < MISS
                                  /\ d(s, shown[s][k]) = best(shown[s][k]) }) ]
    /\ pc' = "process"
    /\ todo' = Surfs(sc)
    /\ UNCHANGED << sc, bund, tree, folw, it, shown, parts >>

\* select_rays and get_outgoing of one surface: the first children of all
\* selected rays, then the second children, and so on; parents are positions
\* in shown[s] and are then translated to positions in bund.
RECURSIVE Outgoing(_, _, _)
Outgoing(s, sel, n) ==
    LET has(k) == n <= Len(sc.out[bund[shown[s][k]].m][s])
        kth == SelectSeq(sel, has)
        ray(k) == LET p == bund[shown[s][k]]
                      c == sc.out[p.m][s][n]
                  IN [ m |-> c.m, e |-> c.e, par |-> k, from |-> s, src |-> p.src ]
    IN IF kth = << >> THEN << >>
       ELSE [ j \in 1..Len(kth) |-> ray(kth[j]) ] \o Outgoing(s, sel, n + 1)

Process(s) ==
    /\ pc = "process" /\ s \in todo
    /\ LET raw == Outgoing(s, front[s], 1)
           fixed == [ j \in 1..Len(raw) |-> [ raw[j] EXCEPT !.par = shown[s][raw[j].par] ] ]
       IN parts' = IF front[s] = << >> THEN parts ELSE Append(parts, fixed)
    /\ todo' = todo \ {s}
    /\ UNCHANGED << sc, bund, tree, folw, it, pc, shown, front >>

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flatten(Tail(ss))

Weld ==
    /\ pc = "process" /\ todo = {}
    /\ LET all == Flatten(parts)
           strong == SelectSeq(all, LAMBDA r : r.e > sc.min)
           weak == SelectSeq(all, LAMBDA r : r.e <= sc.min)
       IN /\ bund' = strong
          /\ tree' = IF all = << >> THEN tree ELSE Append(tree, strong \o weak)
          /\ folw' = IF all = << >> THEN folw ELSE Append(folw, Len(strong))
          /\ pc' = IF strong = << >> \/ it + 1 = sc.reps THEN "done" ELSE "register"
    /\ it' = it + 1
    /\ todo' = Surfs(sc)
    /\ parts' = << >>
    /\ shown' = [ s \in Surfs(sc) |-> << >> ]
    /\ front' = [ s \in Surfs(sc) |-> << >> ]
    /\ UNCHANGED sc

Next == \/ \E s \in todo : Register(s) \/ Process(s)
        \/ Decide
        \/ Weld

(* -------------------------- properties --------------------------------- *)
BagOf(S, Val(_)) == [ v \in { Val(x) : x \in S } |-> Cardinality({ x \in S : Val(x) = v }) ]

KidsOf(k, p) == { j \in 1..Len(tree[k + 1]) : tree[k + 1][j].par = p }

\* C01: every followed ray has exactly the children of its nearest open surface.
ExactlyNearest ==
    \A k \in 1..(Len(tree) - 1) : \A p \in 1..folw[k] :
        LET r == tree[k][p]
            exp == Children(sc, r.m, r.from)
        IN BagOf(KidsOf(k, p), LAMBDA j : [m |-> tree[k+1][j].m, e |-> tree[k+1][j].e])
           = BagOf(1..Len(exp), LAMBDA j : [m |-> exp[j].m, e |-> exp[j].e])

\* C03: parents are rays that were followed, and descent is from one source ray.
Lineage ==
    \A k \in 2..Len(tree) : \A j \in 1..Len(tree[k]) :
        LET r == tree[k][j]
        IN /\ r.par \in 1..folw[k - 1]
           /\ tree[k - 1][r.par].src = r.src
           /\ r.from = Hit(sc, tree[k - 1][r.par].m, tree[k - 1][r.par].from)

\* C04: exactly the rays above the cut-off are followed, and they come first.
CutOff ==
    \A k \in 2..Len(tree) : \A j \in 1..Len(tree[k]) :
        (j <= folw[k]) <=> (tree[k][j].e > sc.min)

Limit == it <= sc.reps /\ Len(tree) <= sc.reps + 1

\* C04: a trace that ended early has nothing left to follow.
EndsForAReason ==
    pc = "done" => \/ it = sc.reps
                   \/ bund = << >>

\* C05: no ray meets a surface that was closed to it.
OnlyOpen ==
    \A k \in 2..Len(tree) : \A j \in 1..Len(tree[k]) :
        LET p == tree[k - 1][tree[k][j].par]
        IN tree[k][j].from \in Open(sc, p.m, p.from)

\* C02: the rays descending from a source ray depend on that ray only: their
\* marks per level are those of tracing it alone.
RECURSIVE Alone(_, _, _)
Alone(m, from, depth) ==
    IF depth = 0 THEN << >>
    ELSE [ c \in 1..Len(Children(sc, m, from)) |->
             LET r == Children(sc, m, from)[c]
             IN [ m |-> r.m, e |-> r.e,
                  kids |-> IF r.e > sc.min THEN Alone(r.m, Hit(sc, m, from), depth - 1) ELSE << >> ] ]
RECURSIVE CountAt(_, _)
CountAt(kids, k) == IF kids = << >> THEN 0
                    ELSE CountAt(Tail(kids), k) +
                         (IF k = 1 THEN 1 ELSE CountAt(Head(kids).kids, k - 1))
Independent ==
    pc = "done" =>
        \A i \in 1..Len(sc.src) : \A k \in 2..Len(tree) :
            Cardinality({ j \in 1..Len(tree[k]) : tree[k][j].src = i })
              = CountAt(Alone(sc.src[i].m, 0, sc.reps), k - 1)

\* C06: a surface is only asked for rays it was shown, once per iteration.
Protocol == \A s \in Surfs(sc) :
              /\ front[s] # << >> => \A k \in 1..Len(front[s]) : front[s][k] \in 1..Len(shown[s])
              /\ pc \in {"process"} => \A i \in 1..Len(bund) :
                   Cardinality({ t \in Surfs(sc) : \E k \in 1..Len(front[t]) :
                                   shown[t][front[t][k]] = i }) <= 1

SceneFixed == [][sc' = sc]_vars
TreeGrows == [][ /\ Len(tree') >= Len(tree)
                 /\ \A k \in 1..Len(tree) : tree'[k] = tree[k] ]_vars
Terminates == <>(pc = "done")
=============================================================================
