------------------------------- MODULE TrNum -------------------------------
(* Operand pairs with the results computed by Python's unbounded integers. *)
EXTENDS Vec, TrBase

VecFails(c) ==
    Chk(Dot(c.a, c.b) = c.dot, "N", "Dot") \cup Chk(Cross(c.a, c.b) = c.cross, "N", "Cross")
    \cup Chk(Norm(c.a) = c.norm /\ Unit(c.a) = c.unit, "N", "Unit") \cup Chk(At(c.a, c.t, c.b) = c.at, "N", "At")
    \cup Chk(ToWorld(c.f, c.a) = c.world, "N", "ToWorld") \cup Chk(ToLocal(c.f, c.a) = c.local, "N", "ToLocal")
    \cup Chk(InvDir(c.f, c.a) = c.inv, "N", "InvDir") \cup Chk(MMul(c.f, c.g) = c.mmul, "N", "MMul")
    \cup Chk(VAdd(c.a, c.b) = c.add /\ VSub(c.a, c.b) = c.sub, "N", "VAdd")
    \cup Chk(VClose(c.a, c.b, ONE) = \A k \in 1..3 : Le(Abs(Sub(c.a[k], c.b[k])), ONE), "N", "VClose")

StepFails(c) ==
  IF "vec" \in DOMAIN c THEN VecFails(c) ELSE
    Chk(Add(c.a, c.b) = c.add, "N", "Add") \cup Chk(Sub(c.a, c.b) = c.sub, "N", "Sub")
    \cup Chk(Mul(c.a, c.b) = c.mul, "N", "Mul") \cup Chk(Div(c.a, c.b) = c.div, "N", "Div")
    \cup Chk(Sqrt(c.a) = c.sqrt, "N", "Sqrt") \cup Chk(Opp(c.a) = c.neg, "N", "Opp")
    \cup Chk(Abs(c.a) = c.abs, "N", "Abs") \cup Chk(Lt(c.a, c.b) = c.lt, "N", "Lt")
    \cup Chk(Le(c.a, c.b) = c.le, "N", "Le") \cup Chk(Sgn(c.a) = c.sgn, "N", "Sgn")
    \cup Chk(MinN(c.a, c.b) = c.min /\ MaxN(c.a, c.b) = c.max, "N", "MinMax")

Init == s \in 1..Len(Scen) /\ i = 0 /\ TallyInit
Next == /\ i < Len(Steps(s))
        /\ Report(StepFails(Steps(s)[i + 1]))
        /\ i' = i + 1
        /\ s' = s
Spec == Init /\ [][Next]_<<s, i>>

\* The special values, and laws that do not need large operands
ASSUME /\ IsNaN(Add(INF, NINF)) /\ Add(INF, <<5, 5>>) = INF /\ IsNaN(Mul(INF, <<0, 0>>))
       /\ Mul(NINF, FromInt(-2)) = INF /\ Div(FromInt(1), INF) = <<0, 0>> /\ IsNaN(Div(INF, NINF))
       /\ ~Lt(NAN, NAN) /\ ~Le(NAN, NAN) /\ ~Lt(FromInt(1), NAN) /\ Lt(NINF, INF) /\ Lt(FromInt(3), INF)
       /\ Sqrt(FromInt(9)) = FromInt(3) /\ IsNaN(Sqrt(FromInt(-1))) /\ IsNaN(Div(FromInt(1), <<0, 0>>))
       /\ FromInt(7) = <<7 * 1024, 0>> /\ Opp(INF) = NINF /\ IsNaN(Opp(NAN)) /\ Abs(NINF) = INF
       /\ IsNaN(FromInt(2147483647))
=============================================================================
