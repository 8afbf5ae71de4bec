------------------------------- MODULE Display -------------------------------
(***************************************************************************)
(* What a user sees: the 3D view of a scene and of the rays traced through *)
(* it (mayavi_ui), and the tree widget of an assembly (qt).                *)
(*                                                                         *)
(* A view looks after a set of surfaces; some of them are on the screen,   *)
(* each with the look (mesh, colour, opacity) it had when last drawn.      *)
(* What the world holds is an argument of the operations: the surfaces now *)
(* in the assembly, and how each would look if drawn now.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nothing == << >>
NewView == [tracked |-> {}, drawn |-> Nothing, rays |-> << >>]

\* another assembly: what was there goes, what is there now comes
SetAssembly(v, surfs, look(_)) == [v EXCEPT !.tracked = surfs, !.drawn = [x \in surfs |-> look(x)]]
\* drawn again: all that the view looks after, or those asked for
Show(v, which, look(_)) ==
    LET u == v.tracked \cap which
    IN [v EXCEPT !.drawn = [x \in (DOMAIN v.drawn) \cup u |-> IF x \in u THEN look(x) ELSE v.drawn[x]]]
\* the assembly has gained and lost surfaces: those it kept are left as they are
Refresh(v, surfs, look(_)) ==
    LET new == surfs \ v.tracked
    IN [v EXCEPT !.tracked = surfs, !.drawn = [x \in ((DOMAIN v.drawn) \cap surfs) \cup new |-> IF x \in new THEN look(x) ELSE v.drawn[x]]]
Clear(v) == [v EXCEPT !.drawn = Nothing, !.rays = << >>]
Plot(v, r) == [v EXCEPT !.rays = << r >>]

(***************************************************************************)
(* Rays.  lv: the recorded bundles, each [n, par, lit] with lit the rays   *)
(* that carry energy and are wanted.  What is drawn: from every lit ray a  *)
(* line to the start of each ray it gave rise to; from one that gave rise  *)
(* to none, a line of the given length along it.                           *)
(***************************************************************************)
Kids(lv, k, j) == IF k = Len(lv) THEN {} ELSE { c \in 1..lv[k + 1].n : lv[k + 1].par[c] + 1 = j }
LitRays(lv) == { p \in UNION { {k} \X (1..lv[k].n) : k \in 1..Len(lv) } : lv[p[1]].lit[p[2]] }
\* << level, ray, descendant >>, descendant 0: goes on into the open
Lines(lv) == UNION { IF Kids(lv, p[1], p[2]) = {} THEN { << p[1], p[2], 0 >> } ELSE { << p[1], p[2], c >> : c \in Kids(lv, p[1], p[2]) } : p \in LitRays(lv) }

(***************************************************************************)
(* The tree widget.  T[n]: [kind, kids] with kinds asm, obj, surf;         *)
(* tags[n]: the caption of n, NoCap if it has none.  Showing an assembly   *)
(* gives every member without a caption the default one, by its place.     *)
(***************************************************************************)
NoCap == "*none*"
Top == "Top assembly"
Of(T, n, kind) == SelectSeq(T[n].kids, LAMBDA k : T[k].kind = kind)
Default(kind, place) == (CASE kind = "asm" -> "Assembly " [] kind = "obj" -> "Object " [] kind = "surf" -> "Surface ") \o ToString(place - 1)
\* all members below n
RECURSIVE Below(_, _)
Below(T, n) == UNION { {T[n].kids[x]} \cup Below(T, T[n].kids[x]) : x \in 1..Len(T[n].kids) }
PlaceOf(T, n, k) == LET q == Of(T, n, T[k].kind) IN CHOOSE x \in 1..Len(q) : q[x] = k
Holder(T, k) == CHOOSE n \in 1..Len(T) : \E x \in 1..Len(T[n].kids) : T[n].kids[x] = k
CapOf(T, tags, k) == IF tags[k] # NoCap THEN tags[k] ELSE Default(T[k].kind, PlaceOf(T, Holder(T, k), k))
Captioned(T, tags, top) == [k \in 1..Len(T) |-> IF k \in Below(T, top) THEN CapOf(T, tags, k) ELSE tags[k]]
\* the items, as << caption, member (0: a heading), items below it >>
RECURSIVE Item(_, _, _, _)
Item(T, tags, n, cap) ==
    LET part(kind) == LET q == Of(T, n, kind) IN [x \in 1..Len(q) |-> Item(T, tags, q[x], CapOf(T, tags, q[x]))]
        head(kind, title) == IF Of(T, n, kind) = <<>> THEN <<>> ELSE << << title, 0, part(kind) >> >>
    IN << cap, n, IF T[n].kind = "asm" THEN head("asm", "Subassemblies") \o head("obj", "Optical objects")
                  ELSE IF T[n].kind = "obj" THEN part("surf") ELSE <<>> >>
=============================================================================
