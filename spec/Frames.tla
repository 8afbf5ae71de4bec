------------------------------- MODULE Frames -------------------------------
(***************************************************************************)
(* Where things are.  A scene is a forest of nodes: surfaces, boundaries,  *)
(* objects and assemblies, each with its own frame relative to the node    *)
(* that contains it.  The world frame of a node is the composition of the  *)
(* frames of all its containers, outermost first, with its own.            *)
(* Composition and identity are parameters: rigid motions for the traces,  *)
(* a small non-commutative group for model checking.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Comp(_, _), Ident

Node(kind, own) == [kind |-> kind, own |-> own, par |-> 0]
IsBox(nd) == nd.kind \in {"obj", "asm"}

RECURSIVE World(_, _)
World(ns, n) == IF ns[n].par = 0 THEN ns[n].own ELSE Comp(World(ns, ns[n].par), ns[n].own)

RECURSIVE Above(_, _)
Above(ns, n) == IF ns[n].par = 0 THEN {} ELSE {ns[n].par} \cup Above(ns, ns[n].par)

\* A new node; the nodes in kids become parts of it and keep their own frames.
Create(ns, kind, own, kids) ==
    Append([k \in 1..Len(ns) |-> IF k \in kids THEN [ns[k] EXCEPT !.par = Len(ns) + 1] ELSE ns[k]],
           Node(kind, own))

\* Part c is put into p; objects and assemblies get the frame fr, surfaces and boundaries keep theirs.
AddPart(ns, p, c, fr) ==
    [ns EXCEPT ![c].par = p, ![c].own = IF IsBox(ns[c]) THEN fr ELSE ns[c].own]

Move(ns, n, fr) == [ns EXCEPT ![n].own = fr]

MayHold(pk, ck) == \/ pk = "obj" /\ ck \in {"surf", "bnd"}
                   \/ pk = "asm" /\ ck \in {"obj", "asm"}
=============================================================================
