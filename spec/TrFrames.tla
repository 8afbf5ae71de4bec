------------------------------ MODULE TrFrames ------------------------------
(***************************************************************************)
(* Histories of building and moving scenes, recorded from the real code.   *)
(* After every operation all frames are observed: what the getters report, *)
(* the frame handed to each surface's geometry, the points that            *)
(* global_to_local and mesh give, what each boundary says of some points.  *)
(***************************************************************************)
EXTENDS Vec, TrBase

F == INSTANCE Frames WITH Comp <- MMul, Ident <- MEye

VARIABLE ns
TOL == Eps(30)

WithLoc(f, v) == << [f[1] EXCEPT ![4] = v[1]], [f[2] EXCEPT ![4] = v[2]], [f[3] EXCEPT ![4] = v[3]], f[4] >>
WithRot(f, r) == << r[1] \o << f[1][4] >>, r[2] \o << f[2][4] >>, r[3] \o << f[3][4] >>, f[4] >>

After(st) ==
    CASE st.op = "create"  -> F!Create(ns, st.kind, st.fr, { st.kids[k] : k \in 1..Len(st.kids) })
      [] st.op = "add"     -> F!AddPart(ns, st.p, st.c, st.fr)
      [] st.op = "loc"     -> F!Move(ns, st.n, WithLoc(ns[st.n].own, st.val))
      [] st.op = "rot"     -> F!Move(ns, st.n, WithRot(ns[st.n].own, st.val))
      [] st.op = "tr"      -> F!Move(ns, st.n, st.val)
      [] st.op = "bad"     -> ns          \* refused
      [] st.op = "scribble" -> ns         \* the caller writes into arrays he once passed
      [] st.op = "trace"   -> ns          \* rays are traced through the scene

Parts(m, n) == { k \in 1..Len(m) : n \in F!Above(m, k) }
SetOf(q) == { q[k] : k \in 1..Len(q) }

\* boundary b placed at world frame f: is p inside?  "?" where rounding may decide
Inside(b, f, p) ==
    LET l == ToLocal(f, p)
        m == Eps(18)
        ans(x, lim) == IF Lt(x, Sub(lim, m)) THEN "T" ELSE IF Gt(x, Add(lim, m)) THEN "F" ELSE "?"
    IN CASE b.shape = "sphere" -> ans(Norm2(l), Sq(b.r))
         [] b.shape = "cyl"    -> ans(Add(Sq(l[1]), Sq(l[2])), Sq(b.r))
         [] b.shape = "plane"  -> ans(Opp(l[3]), ZERO)

ObsFails(m, o) ==
    LET nd(k) == m[k]
    IN  UNION { LET g == o.get[k]
                IN  Chk(MClose(g.tr, m[k].own, TOL), "C09", "transform-is-not-the-last-one-set")
                    \cup Chk(VClose(g.loc, Org(g.tr), TOL), "C09", "location-disagrees-with-transform")
                    \cup Chk(\A a \in 1..3 : \A b \in 1..3 : Close(g.rot[a][b], g.tr[a][b], TOL), "C09", "rotation-disagrees-with-transform")
              : k \in 1..Len(m) }
        \cup UNION { Chk(MClose(o.surf[x].wf, F!World(m, o.surf[x].n), TOL), "C08", "surface-is-not-at-its-composed-frame")
              : x \in 1..Len(o.surf) }
        \cup UNION { LET y == o.g2l[x]
                     IN Chk(Len(y.out) = Len(y.pts) /\ \A p \in 1..Len(y.pts) :
                          Len(y.out[p]) = 3 /\ VClose(y.out[p], ToLocal(F!World(m, y.n), y.pts[p]), Eps(20)), "C08", "global-to-local")
              : x \in 1..Len(o.g2l) }
        \cup UNION { LET y == o.mesh[x]
                     IN Chk(Len(y.out) = Len(y.pts) /\ \A p \in 1..Len(y.pts) :
                          Len(y.out[p]) = 3 /\ VClose(y.out[p], ToWorld(F!World(m, y.n), y.pts[p]), Eps(20)), "C08", "mesh-not-at-the-surface")
              : x \in 1..Len(o.mesh) }
        \cup UNION { LET y == o.bnd[x]
                     IN ChkAll(Len(y.ans) = Len(y.pts) /\ \A p \in 1..Len(y.pts) :
                          LET e == Inside(y, F!World(m, y.n), y.pts[p]) IN e = "?" \/ e = y.ans[p], {"C08", "C25"}, "boundary-is-not-at-its-composed-frame")
              : x \in 1..Len(o.bnd) }
        \cup UNION { LET y == o.list[x]
                         want == { k \in Parts(m, y.n) : m[k].kind = "surf" }
                         objs == IF m[y.n].kind = "asm" THEN { k \in Parts(m, y.n) : m[k].kind = "obj" } ELSE {}
                         kids == { k \in 1..Len(m) : m[k].par = y.n }
                     IN ChkAll(SetOf(y.surfs) = want /\ Len(y.surfs) = Cardinality(want), {"C08", "C01"}, "surfaces-of-an-assembly")
                        \cup Chk(SetOf(y.objs) = objs /\ Len(y.objs) = Cardinality(objs), "C08", "objects-of-an-assembly")
                        \cup Chk(SetOf(y.own) = kids /\ Len(y.own) = Cardinality(kids), "C08", "members")
              : x \in 1..Len(o.list) }

StepFails(st) ==
    IF st.exc # "" THEN { << p, "exception-in-" \o st.op >> : p \in {"C08", "C09"} }
    ELSE ObsFails(After(st), st.obs)
         \cup Chk(st.op # "bad" \/ st.refused, "C09", "wrong-shape-accepted")
         \cup Chk(st.same, "C09", "the-callers-array-was-changed")

Init == s \in 1..Len(Scen) /\ i = 0 /\ TallyInit /\ ns = <<>>
Next == /\ i < Len(Steps(s))
        /\ Report(StepFails(Steps(s)[i + 1]))
        /\ ns' = IF Steps(s)[i + 1].exc = "" THEN After(Steps(s)[i + 1]) ELSE ns
        /\ i' = i + 1
        /\ s' = s
Spec == Init /\ [][Next]_<<s, i, ns>>
=============================================================================
