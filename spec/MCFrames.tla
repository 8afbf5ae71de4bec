------------------------------ MODULE MCFrames ------------------------------
(***************************************************************************)
(* The design the code uses to keep world frames up to date, against their *)
(* definition, for every history of building and moving up to MaxOps       *)
(* operations.  Every node remembers the world frame of its container (pf) *)
(* and its own world frame (w); setting a frame refreshes w and pushes it  *)
(* down to all parts.  Frames are the permutations of three things.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxOps, MaxNodes

PermComp(a, b) == << a[b[1]], a[b[2]], a[b[3]] >>
PermId == << 1, 2, 3 >>
F == INSTANCE Frames WITH Comp <- PermComp, Ident <- PermId
Gens == { PermId, << 2, 1, 3 >>, << 2, 3, 1 >> }

VARIABLES ns, pf, w, ops
vars == << ns, pf, w, ops >>

Kids(m, n) == { k \in 1..Len(m) : m[k].par = n }

\* transform_frame / transform_children: new (pf, w) when n's container sits at fr
RECURSIVE Push(_, _, _, _)
RECURSIVE PushAll(_, _, _, _)
Push(m, c, n, fr) ==
    LET c1 == [pf |-> [c.pf EXCEPT ![n] = fr], w |-> [c.w EXCEPT ![n] = PermComp(fr, m[n].own)]]
    IN PushAll(m, c1, Kids(m, n), PermComp(fr, m[n].own))
PushAll(m, c, todo, fr) ==
    IF todo = {} THEN c
    ELSE LET k == CHOOSE x \in todo : TRUE
         IN PushAll(m, Push(m, c, k, fr), todo \ {k}, fr)

Cur == [pf |-> pf, w |-> w]
Set(m, c) == ns' = m /\ pf' = c.pf /\ w' = c.w /\ ops' = ops + 1

DoCreate == /\ Len(ns) < MaxNodes
            /\ \E kind \in {"surf", "obj", "asm"}, own \in Gens, kids \in SUBSET (1..Len(ns)) :
                 /\ \A k \in kids : ns[k].par = 0 /\ F!MayHold(kind, ns[k].kind)
                 /\ LET m == F!Create(ns, kind, own, kids)
                        c == [pf |-> Append(pf, PermId), w |-> Append(w, PermId)]
                    IN Set(m, Push(m, c, Len(m), PermId))
DoAdd == \E p \in 1..Len(ns), c \in 1..Len(ns), fr \in Gens :
            /\ p # c /\ ns[c].par = 0 /\ F!MayHold(ns[p].kind, ns[c].kind) /\ c \notin F!Above(ns, p)
            /\ LET m == F!AddPart(ns, p, c, fr)
                   c1 == IF F!IsBox(ns[c]) THEN Push(F!Move(ns, c, fr), Cur, c, pf[c]) ELSE Cur
               IN Set(m, Push(m, c1, p, pf[p]))
DoMove == \E n \in 1..Len(ns), fr \in Gens :
            LET m == F!Move(ns, n, fr) IN Set(m, Push(m, Cur, n, pf[n]))

Init == ns = <<>> /\ pf = <<>> /\ w = <<>> /\ ops = 0
Next == ops < MaxOps /\ (DoCreate \/ DoAdd \/ DoMove)
Spec == Init /\ [][Next]_vars

WorldIsComposition == \A n \in 1..Len(ns) : w[n] = F!World(ns, n)
Forest == \A n \in 1..Len(ns) : n \notin F!Above(ns, n)
\* a move changes the world frames of the moved node and its parts only
MovesStayLocal == [][\A n \in 1..Len(ns) : w'[n] # w[n] =>
                        \E k \in {n} \cup F!Above(ns', n) : ns'[k] # ns[k]]_vars
=============================================================================
