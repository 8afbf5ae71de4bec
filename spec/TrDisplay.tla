------------------------------ MODULE TrDisplay ------------------------------
(* Histories of the real view and of the real tree widget. *)
EXTENDS Display, TrBase, Vec

VARIABLES v        \* views: the view (with the control values); trees: what is shown, and the captions

\* ---- views
\* how surface x would look if drawn now with the given defaults
Look(st, x) == LET w == CHOOSE y \in 1..Len(st.world) : st.world[y].n = x
                   z == st.world[w]
                   res == IF z.res # 0 THEN z.res ELSE st.res
               IN << (CHOOSE y \in 1..Len(z.mesh) : z.mesh[y][1] = res), z.mesh[CHOOSE y \in 1..Len(z.mesh) : z.mesh[y][1] = res][2],
                     IF z.col # 0 THEN z.col ELSE st.col, IF z.op # 0 THEN z.op ELSE st.opac >>
SetOf(q) == { q[x] : x \in 1..Len(q) }
PlotOf(st) == [lv |-> st.lv, len |-> st.len]
AfterView(st) ==
    CASE st.do = "view" -> LET w == SetAssembly(NewView, SetOf(st.surfs), LAMBDA x : Look(st, x)) IN IF st.plots THEN Plot(w, PlotOf(st)) ELSE w
      [] st.do = "assembly" -> SetAssembly(v, SetOf(st.surfs), LAMBDA x : Look(st, x))
      [] st.do = "show" -> Show(v, IF st.all THEN v.tracked ELSE SetOf(st.which), LAMBDA x : Look(st, x))
      [] st.do = "refresh" -> Refresh(v, SetOf(st.surfs), LAMBDA x : Look(st, x))
      [] st.do = "clear" -> Clear(v)
      [] st.do \in {"plot", "source", "rays"} -> Plot(v, PlotOf(st))
      [] OTHER -> v

Ends(r, l) == LET b == r.lv[l[1]]
              IN << b.v[l[2]], IF l[3] = 0 THEN At(b.v[l[2]], r.len, b.d[l[2]]) ELSE r.lv[l[1] + 1].v[l[3]] >>
SameLine(a, b) == \/ VClose(a[1], b[1], Eps(24)) /\ VClose(a[2], b[2], Eps(24))
                  \/ VClose(a[1], b[2], Eps(24)) /\ VClose(a[2], b[1], Eps(24))
LinesFit(rs, segs) ==
    LET W == IF rs = << >> THEN {} ELSE Lines(rs[1].lv)
        E == TLCEval([l \in W |-> Ends(rs[1], l)])
    IN /\ Len(segs) = Cardinality(W)
       /\ \A l \in W : Cardinality({ x \in 1..Len(segs) : SameLine(segs[x], E[l]) }) = Cardinality({ m \in W : SameLine(E[m], E[l]) })
\* what is on the screen: a sequence of << mesh, colour, opacity >>
Sight(w, x) == << w.drawn[x][2], w.drawn[x][3], w.drawn[x][4] >>
MeshesFit(w, live) ==
    /\ Len(live) = Cardinality(DOMAIN w.drawn)
    /\ \A x \in DOMAIN w.drawn : Cardinality({ y \in 1..Len(live) : live[y] = Sight(w, x) }) = Cardinality({ z \in DOMAIN w.drawn : Sight(w, z) = Sight(w, x) })
ViewFails(st) ==
    LET w == AfterView(st)
    IN Chk(MeshesFit(w, st.live), "C27", "surfaces-on-display-in-" \o st.do)
       \cup Chk(LinesFit(w.rays, st.segs), "C27", "rays-on-display-in-" \o st.do)
       \cup Chk(st.ctl = st.wantctl, "C27", "trace-control")
       \cup Chk(st.same, "C27", "source-or-scene-altered")

\* ---- trees
AfterTree(st) ==
    CASE st.do = "grow" -> [v EXCEPT !.T = st.T, !.tags = [k \in 1..Len(st.T) |-> IF k <= Len(v.tags) THEN v.tags[k] ELSE st.pre[k]]]
      [] st.do = "display" -> [v EXCEPT !.top = st.top, !.item = Item(v.T, v.tags, st.top, Top), !.tags = Captioned(v.T, v.tags, st.top)]
      [] st.do = "rename" -> [v EXCEPT !.tags[st.n] = st.text]
      [] st.do = "tag" -> [v EXCEPT !.tags[st.n] = st.text]
      [] OTHER -> v
\* the renamed item shows its new caption
RECURSIVE Recap(_, _, _)
Recap(it, n, text) == << IF it[2] = n /\ n # 0 THEN text ELSE it[1], it[2], [x \in 1..Len(it[3]) |-> Recap(it[3][x], n, text)] >>
After(st) == LET w == AfterTree(st) IN IF st.do = "rename" THEN [w EXCEPT !.item = Recap(@, st.n, st.text)] ELSE w
RECURSIVE Fits(_, _, _)
\* the item `it` is what the widget has, `has`: << text, editable, items below >>
Fits(it, has, free) == /\ (it[1] = has[1] \/ (free /\ has[1] \in {Top, it[1]}))
                       /\ (it[2] # 0 => has[2])
                       /\ Len(it[3]) = Len(has[3]) /\ \A x \in 1..Len(it[3]) : Fits(it[3][x], has[3][x], FALSE)
\* a top assembly that has a caption of its own may be shown by it
TopToo(w, it) == IF w.top # 0 /\ w.tags[w.top] # NoCap THEN << w.tags[w.top], it[2], it[3] >> ELSE it
TreeFails(st) ==
    LET w == After(st)
    IN IF st.do = "grow" THEN {}
       ELSE Chk(w.top = 0 \/ (st.now = w.top /\ Len(st.items) = 1), "C28", "not-the-assembly-that-was-set")
            \cup Chk(w.top = 0 \/ Len(st.items) # 1 \/ Fits(w.item, st.items[1], FALSE) \/ Fits(TopToo(w, w.item), st.items[1], TRUE), "C28", "tree-differs-in-" \o st.do)
            \cup Chk(st.tags = w.tags, "C28", "captions-of-the-members-in-" \o st.do)
            \cup Chk(st.notes = st.wantnotes, "C28", "other-tags-disturbed")

StepFails(st) == IF st.exc # "" THEN { << IF st.op = "view" THEN "C27" ELSE "C28", "exception-in-" \o st.do >> }
                 ELSE IF st.op = "view" THEN ViewFails(st) ELSE TreeFails(st)
Init == s \in 1..Len(Scen) /\ i = 0 /\ TallyInit
        /\ v = IF Scen[s].fam = "tree" THEN [T |-> <<>>, tags |-> <<>>, top |-> 0, item |-> << Top, 0, <<>> >>] ELSE NewView
Next == /\ i < Len(Steps(s))
        /\ LET st == Steps(s)[i + 1]
           IN /\ Report(StepFails(st))
              /\ v' = IF st.exc # "" THEN v ELSE TLCEval(IF st.op = "view" THEN AfterView(st) ELSE After(st))
        /\ i' = i + 1 /\ s' = s
Spec == Init /\ [][Next]_<<s, i, v>>
=============================================================================
