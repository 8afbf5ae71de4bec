------------------------------ MODULE MCBundle ------------------------------
(***************************************************************************)
(* All histories of bundle operations, over up to three bundles of up to   *)
(* MaxRays rays.  Every source ray has an identity that all its properties *)
(* carry; whatever is done, the properties of one ray must keep agreeing   *)
(* (those not written over), and orders must be as asked for.              *)
(***************************************************************************)
EXTENDS Bundle, TLC

CONSTANTS MaxRays, MaxOps, Sels

VARIABLES regs, nops, written    \* written: (register, property) explicitly written by hand

vars == << regs, nops, written >>
P == {"vertices", "energy", "mark"}
Fresh(ids) == [p \in P |-> ids]

Init == /\ regs = << Fresh(<<1, 2>>), Fresh(<<3>>) >>
        /\ nops = 0 /\ written = {}

SelOK(sel, n) == \A k \in 1..Len(sel) : sel[k] < n
Put(b, w) == /\ Num_(b) <= MaxRays
             /\ regs' = IF Len(regs) < 3 THEN Append(regs, b) ELSE [regs EXCEPT ![3] = b]
             /\ nops' = nops + 1
             /\ LET t == IF Len(regs) < 3 THEN Len(regs) + 1 ELSE 3
                IN written' = { x \in written : x[1] # t } \cup { << t, p >> : p \in w }
W(r) == { x[2] : x \in { y \in written : y[1] = r } }

DoInherit == \E r \in 1..Len(regs), sel \in Sels :
    /\ SelOK(sel, Num_(regs[r]))
    /\ \/ Put(Inherit(regs[r], sel, <<>>), W(r))
       \/ Put(Inherit(regs[r], sel, [p \in {"energy"} |-> [k \in 1..Len(sel) |-> 9]]), W(r) \cup {"energy"})
DoDelete == \E r \in 1..Len(regs), sel \in Sels :
    /\ SelOK(sel, Num_(regs[r]))
    /\ Put(Delete(regs[r], sel), W(r))
DoPlus == \E a, b \in 1..Len(regs) : Put(Plus(regs[a], regs[b]), W(a) \cup W(b))
DoConcat == \E a, b, c \in 1..Len(regs) : Put(Concat(<< regs[a], regs[b], regs[c] >>), W(a) \cup W(b) \cup W(c))
DoWrite == \E r \in 1..Len(regs), sel \in Sels :
    /\ SelOK(sel, Num_(regs[r]))
    /\ regs' = [regs EXCEPT ![r] = SetSome(@, "energy", [k \in 1..Len(sel) |-> 8], sel)]
    /\ nops' = nops + 1
    /\ written' = written \cup { << r, "energy" >> }

Next == nops < MaxOps /\ (DoInherit \/ DoDelete \/ DoPlus \/ DoConcat \/ DoWrite)
Spec == Init /\ [][Next]_vars

Together == \A r \in 1..Len(regs) : \A j \in 1..Num_(regs[r]) :
                \A p, q \in P \ W(r) : regs[r][p][j] = regs[r][q][j]
Counts == \A r \in 1..Len(regs) : Aligned(regs[r])
AllProps == \A r \in 1..Len(regs) : Props(regs[r]) = P
\* operations other than writes leave the first two bundles as they were
SourcesStay == [][\A r \in 1..2 : regs'[r] # regs[r] => written' # written \/ \E j \in 1..Num_(regs[r]) : regs'[r]["energy"][j] = 8]_vars
\* deleting and keeping are complementary; concatenation is repeated addition
Laws == \A a, b \in 1..Len(regs) :
            /\ Plus(regs[a], regs[b]) = Concat(<< regs[a], regs[b] >>)
            /\ \A sel \in Sels : SelOK(sel, Num_(regs[a])) =>
                  /\ Num_(Inherit(regs[a], sel, <<>>)) = Len(sel)
                  /\ Num_(Delete(regs[a], sel)) = Num_(regs[a]) - Cardinality({sel[k] : k \in 1..Len(sel)})
                  /\ Inherit(Inherit(regs[a], sel, <<>>), [k \in 1..Len(sel) |-> Len(sel) - k], <<>>)
                       = Inherit(regs[a], [k \in 1..Len(sel) |-> sel[Len(sel) + 1 - k]], <<>>)
SelsQ == { <<>>, <<0>>, <<1>>, <<1, 0>>, <<0, 0>>, <<2, 0>> }
=============================================================================
