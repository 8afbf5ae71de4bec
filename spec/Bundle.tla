------------------------------- MODULE Bundle -------------------------------
(***************************************************************************)
(* The algebra of ray bundles.  A bundle is a function from the names of   *)
(* the properties that are set to sequences, one value per ray (a vector   *)
(* property has one tuple per ray).  Indices in selectors start at 0.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Props(b) == DOMAIN b
Num_(b)  == Len(b["vertices"])
Aligned(b) == \A p \in Props(b) : Len(b[p]) = Num_(b)

Pick(q, sel) == [k \in 1..Len(sel) |-> q[sel[k] + 1]]

\* The rays of b at sel, with the properties in ov given instead.
Inherit(b, sel, ov) ==
    [p \in Props(b) \cup DOMAIN ov |-> IF p \in DOMAIN ov THEN ov[p] ELSE Pick(b[p], sel)]

\* All rays of b but those at sel, in their order.
Keep(n, sel) == LET drop == { sel[k] : k \in 1..Len(sel) }
                    RECURSIVE go(_, _)
                    go(j, acc) == IF j = n THEN acc
                                  ELSE go(j + 1, IF j \in drop THEN acc ELSE Append(acc, j))
                IN go(0, <<>>)
Delete(b, sel) == LET k == Keep(Num_(b), sel)
                  IN [p \in Props(b) |-> Pick(b[p], k)]

\* First all rays of a, then all rays of b; what only one of them has is lost.
Plus(a, b) == [p \in Props(a) \cap Props(b) |-> a[p] \o b[p]]

RECURSIVE Flat(_)
Flat(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Flat(Tail(qs))
Base == {"vertices", "directions", "energy", "parents", "ref_index"}
Empty == [p \in Base |-> <<>>]
Concat(bs) == IF bs = <<>> THEN Empty
              ELSE [p \in Props(bs[1]) |-> Flat([k \in 1..Len(bs) |-> bs[k][p]])]

\* Writing a property: all of it, or only the selected rays.
SetAll(b, p, val) == [x \in Props(b) \cup {p} |-> IF x = p THEN val ELSE b[x]]
Last(sel, j) == CHOOSE k \in 1..Len(sel) : sel[k] = j /\ \A l \in (k + 1)..Len(sel) : sel[l] # j
SetSome(b, p, val, sel) ==
    [b EXCEPT ![p] = [j \in 1..Num_(b) |->
        IF \E k \in 1..Len(sel) : sel[k] = j - 1 THEN val[Last(sel, j - 1)] ELSE b[p][j]]]
=============================================================================
