------------------------------ MODULE TrBundle ------------------------------
(* Histories of bundle operations recorded from the real RayBundle.        *)
EXTENDS Bundle, TrBase

VARIABLE regs      \* the model's bundles, by register

After(st) ==
    CASE st.op = "new"     -> st.val
      [] st.op = "inherit" -> Inherit(regs[st.a], st.sel, st.ov)
      [] st.op = "delete"  -> Delete(regs[st.a], st.sel)
      [] st.op = "plus"    -> Plus(regs[st.a], regs[st.b])
      [] st.op = "concat"  -> Concat([k \in 1..Len(st.list) |-> regs[st.list[k]]])
      [] st.op = "empty"   -> Empty
      [] st.op = "setall"  -> SetAll(regs[st.a], st.p, st.val)
      [] st.op = "setsome" -> SetSome(regs[st.a], st.p, st.val, st.sel)
      [] st.op = "get"     -> regs[st.a]

Target(st) == st.to
NewRegs(st) == LET t == st.to
               IN IF t <= Len(regs) THEN [regs EXCEPT ![t] = After(st)] ELSE Append(regs, After(st))

StepFails(st) ==
    IF st.exc # "" THEN { << "C10", "exception-in-" \o st.op >> }
    ELSE LET nr == NewRegs(st)
         IN  Chk(Len(st.obs) = Len(nr) /\ st.obs[st.to] = nr[st.to], "C10", st.op \o "-result")
             \cup Chk(\A r \in 1..Len(regs) : r = st.to \/ (r <= Len(st.obs) /\ st.obs[r] = regs[r]),
                      "C10", st.op \o "-changed-another-bundle")
             \cup Chk(st.op # "get" \/ st.got = Pick(regs[st.a][st.p], st.sel), "C10", "selective-read")
             \cup Chk(st.num = Num_(nr[st.to]), "C10", "number-of-rays")
             \cup Chk(\A k \in 1..Len(st.has) : st.has[k] \in DOMAIN nr[st.to] \cup Base, "C10", "knows-foreign-property")
             \cup Chk(\A p \in DOMAIN nr[st.to] : \E k \in 1..Len(st.has) : st.has[k] = p, "C10", "forgot-property")

Init == s \in 1..Len(Scen) /\ i = 0 /\ TallyInit /\ regs = <<>>
Next == /\ i < Len(Steps(s))
        /\ Report(StepFails(Steps(s)[i + 1]))
        /\ regs' = IF Steps(s)[i + 1].exc = "" THEN Steps(s)[i + 1].obs ELSE regs
        /\ i' = i + 1
        /\ s' = s
Spec == Init /\ [][Next]_<<s, i, regs>>
=============================================================================
