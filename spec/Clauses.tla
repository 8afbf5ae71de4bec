------------------------------ MODULE Clauses ------------------------------
(* Verdicts: sets of << property, clause >>, empty if all is well.         *)
Chk(cond, p, c) == IF cond THEN {} ELSE { << p, c >> }
ChkAll(cond, ps, c) == IF cond THEN {} ELSE { << p, c >> : p \in ps }
=============================================================================
