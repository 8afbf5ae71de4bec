------------------------------ MODULE MCDisplay ------------------------------
(***************************************************************************)
(* The displays, checked on their own:                                     *)
(*  - all histories of a view that keeps a table of surfaces and their     *)
(*    drawn meshes (the way the code does it) over a screen: the screen    *)
(*    always shows what the history means;                                 *)
(*  - for all small trees of rays, the lines laid out in one array of      *)
(*    points by index arithmetic are the lines that are to be drawn;       *)
(*  - for all small assemblies, the tree widget has every member once,     *)
(*    under its holder, and showing it again changes nothing.              *)
(***************************************************************************)
EXTENDS Display, IOUtils
CONSTANTS MaxOps
T == IF "VERIF_FAMILY" \in DOMAIN IOEnv THEN IOEnv.VERIF_FAMILY = "t" ELSE FALSE

S == 1..3
\* the world: which surfaces are in the assembly, and the current look of each (one of two)
VARIABLES mode, v, in, look, table, screen, nops, data
vars == << mode, v, in, look, table, screen, nops, data >>
None == 0
\* table: surface -> mesh number or None, on a subset of S; screen: mesh number -> look
Fresh == CHOOSE m \in 1..20 : m \notin DOMAIN screen /\ \A k \in 1..(m - 1) : k \in DOMAIN screen
RECURSIVE DrawAll(_, _, _)
DrawAll(tab, scr, todo) ==       \* redraws the surfaces of todo: the old mesh goes, a new one comes
    IF todo = {} THEN << tab, scr >>
    ELSE LET x == CHOOSE y \in todo : \A z \in todo : y <= z
             old == tab[x]
             left == [m \in (DOMAIN scr) \ {old} |-> scr[m]]
             new == CHOOSE m \in 1..20 : m \notin DOMAIN left
         IN DrawAll([tab EXCEPT ![x] = new], [m \in (DOMAIN left) \cup {new} |-> IF m = new THEN << x, look[x] >> ELSE left[m]], todo \ {x})
Put(r) == table' = r[1] /\ screen' = r[2]
Without(scr, ms) == [m \in (DOMAIN scr) \ ms |-> scr[m]]
L(x) == << x, look[x] >>

DoSet == \E a \in SUBSET S :
    /\ in' = a
    /\ v' = SetAssembly(v, a, L)
    /\ Put(DrawAll([x \in a |-> None], Without(screen, { table[x] : x \in DOMAIN table }), a))
    /\ UNCHANGED look
DoClear == /\ v' = Clear(v) /\ table' = [x \in DOMAIN table |-> None] /\ screen' = << >> /\ UNCHANGED << in, look >>
DoShow == \E u \in SUBSET S :
    /\ v' = Show(v, u, L)
    /\ Put(DrawAll(table, screen, (DOMAIN table) \cap u))
    /\ UNCHANGED << in, look >>
DoRefresh ==
    LET gone == (DOMAIN table) \ in
        new == in \ DOMAIN table
    IN /\ v' = Refresh(v, in, L)
       /\ Put(DrawAll([x \in in |-> IF x \in new THEN None ELSE table[x]], Without(screen, { table[x] : x \in gone }), new))
       /\ UNCHANGED << in, look >>
DoChange == \/ \E x \in S : in' = (IF x \in in THEN in \ {x} ELSE in \cup {x}) /\ UNCHANGED << v, look, table, screen >>
            \/ \E x \in S : look' = [look EXCEPT ![x] = 3 - @] /\ UNCHANGED << v, in, table, screen >>
\* the screen shows exactly what is drawn
Truthful == mode = "view" =>
    /\ \A x \in DOMAIN v.drawn : Cardinality({ m \in DOMAIN screen : screen[m] = v.drawn[x] }) = 1
    /\ Cardinality(DOMAIN screen) = Cardinality(DOMAIN v.drawn)
    /\ DOMAIN v.drawn \subseteq v.tracked /\ DOMAIN table = v.tracked

\* ---- lines
Bund(n, N) == [n : {n}, par : [1..n -> 0..(N - 1)], lit : [1..n -> BOOLEAN]]
Trees == UNION { { << a, b, c >> : a \in Bund(n1, 1), b \in Bund(n2, n1), c \in Bund(n3, n2) } : n1 \in 1..2, n2 \in 1..(IF T THEN 3 ELSE 2), n3 \in 1..2 }
         \cup UNION { { << a, b >> : a \in Bund(n1, 1), b \in Bund(n2, n1) } : n1 \in 1..3, n2 \in 1..3 } \cup { << a >> : a \in UNION { Bund(n, 1) : n \in 1..3 } }
\* points: first the starts of the source rays, then, level by level, the starts of the next rays followed by the ends of those that go on
Escaping(lv, k) == SelectSeq([j \in 1..lv[k].n |-> j], LAMBDA j : lv[k].lit[j] /\ Kids(lv, k, j) = {})
Block(lv, k) == (IF k = Len(lv) THEN << >> ELSE [c \in 1..lv[k + 1].n |-> << "start", k + 1, c >>])
                \o [x \in 1..Len(Escaping(lv, k)) |-> << "end", k, Escaping(lv, k)[x] >>]
RECURSIVE Points(_, _)
Points(lv, k) == IF k > Len(lv) THEN << >> ELSE Block(lv, k) \o Points(lv, k + 1)
RECURSIVE Before(_, _)
Before(lv, k) == IF k = 1 THEN 0 ELSE IF k = 2 THEN lv[1].n ELSE Before(lv, k - 1) + Len(Block(lv, k - 2))
Joined(lv) ==
    LET P == [j \in 1..lv[1].n |-> << "start", 1, j >>] \o Points(lv, 1)
        ends(k) == Block(lv, k)
        from(k, x) == IF ends(k)[x][1] = "start" THEN lv[k + 1].par[x] + 1 ELSE ends(k)[x][3]
        pairs(k) == { << from(k, x), x >> : x \in { y \in 1..Len(ends(k)) : lv[k].lit[from(k, y)] } }
    IN UNION { { << P[Before(lv, k) + p[1]], P[Before(lv, k + 1) + p[2]] >> : p \in pairs(k) } : k \in 1..Len(lv) }
Drawn(lv) == { << << "start", l[1], l[2] >>, IF l[3] = 0 THEN << "end", l[1], l[2] >> ELSE << "start", l[1] + 1, l[3] >> >> : l \in Lines(lv) }
LinesRight == mode = "lines" => Joined(data) = Drawn(data)

\* ---- the tree widget
\* assemblies of up to five members: holders come before what they hold
Kinds == {"asm", "obj", "surf"}
May(a, b) == << a, b >> \in { << "asm", "asm" >>, << "asm", "obj" >>, << "obj", "surf" >> }
NMax == IF T THEN 6 ELSE 5
Shapes == UNION { { z \in [1..n -> [kind : Kinds, up : 0..(n - 1)]] :
                     z[1] = [kind |-> "asm", up |-> 0] /\ \A k \in 2..n : z[k].up \in 1..(k - 1) /\ May(z[z[k].up].kind, z[k].kind) } : n \in 1..NMax }
KidsOf(z, k) == SelectSeq([x \in 1..Len(z) |-> x], LAMBDA x : z[x].up = k)
AsTree(z) == [k \in 1..Len(z) |-> [kind |-> z[k].kind, kids |-> KidsOf(z, k)]]
RECURSIVE Members(_)
Members(it) == (IF it[2] = 0 THEN << >> ELSE << it[2] >>) \o (LET RECURSIVE go(_) go(x) == IF x > Len(it[3]) THEN << >> ELSE Members(it[3][x]) \o go(x + 1) IN go(1))
Holds(it, p, n) == LET RECURSIVE go(_, _) go(i, up) == (i[2] = n /\ up = p) \/ \E x \in 1..Len(i[3]) : go(i[3][x], IF i[2] = 0 THEN up ELSE i[2]) IN go(it, 0)
Tags(z) == { [k \in 1..Len(z) |-> IF k \in u THEN "mine" ELSE NoCap] : u \in SUBSET (2..(IF Len(z) < 3 THEN Len(z) ELSE 3)) }
TreeRight == mode = "tree" =>
    LET t == AsTree(data)
    IN \A tags \in Tags(data) :
         LET it == Item(t, tags, 1, Top)
             after == Captioned(t, tags, 1)
             ms == Members(it)
         IN /\ Len(ms) = Len(t) /\ { ms[x] : x \in 1..Len(ms) } = 1..Len(t)
            /\ \A k \in 2..Len(t) : Holds(it, data[k].up, k)
            /\ Item(t, after, 1, Top) = it /\ Captioned(t, after, 1) = after
            /\ \A k \in 2..Len(t) : after[k] # NoCap /\ (tags[k] # NoCap => after[k] = tags[k])
            /\ \A j, k \in 2..Len(t) : (j # k /\ tags[j] = NoCap /\ tags[k] = NoCap /\ data[j].up = data[k].up /\ data[j].kind = data[k].kind) => after[j] # after[k]

Init == \/ mode = "view" /\ v = NewView /\ in = {} /\ look = [x \in S |-> 1] /\ table = << >> /\ screen = << >> /\ nops = 0 /\ data = << >>
        \/ mode = "lines" /\ data \in Trees /\ v = NewView /\ in = {} /\ look = << >> /\ table = << >> /\ screen = << >> /\ nops = 0
        \/ mode = "tree" /\ data \in { [k \in 1..Len(z) |-> z[k]] : z \in Shapes } /\ v = NewView /\ in = {} /\ look = << >> /\ table = << >> /\ screen = << >> /\ nops = 0
Next == /\ mode = "view" /\ nops < MaxOps /\ nops' = nops + 1 /\ UNCHANGED << mode, data >>
        /\ \/ DoSet \/ DoClear \/ DoShow \/ DoRefresh \/ DoChange
Spec == Init /\ [][Next]_vars
=============================================================================
