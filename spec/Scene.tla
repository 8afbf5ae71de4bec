------------------------------- MODULE Scene -------------------------------
(***************************************************************************)
(* Scenes: surfaces in world frames, grouped in objects, and what a ray    *)
(* meets first.                                                            *)
(*                                                                         *)
(* A scene is a sequence of surfaces                                       *)
(*   [g |-> geometry, f |-> world frame, o |-> optics,                     *)
(*    acct |-> books the hits go to (0: none),                             *)
(*    ob |-> the object it belongs to, skip |-> BOOLEAN].                  *)
(* A ray leaving a surface of an object with skip is not tested against    *)
(* the surfaces of that object in the next iteration.                      *)
(***************************************************************************)
EXTENDS Optics, TLC

NEARTOL == Eps(15)      \* closer than this, two hits cannot be told apart

Single(s) == s.o.k # "refr"      \* one ray in, one ray out

\* surfaces open to a ray that left surface from (0: source)
OpenTo(S, from) == { y \in 1..Len(S) : ~(from > 0 /\ S[from].skip /\ S[y].ob = S[from].ob) }

RECURSIVE MinOf(_)
MinOf(T) == LET x == CHOOSE y \in T : TRUE
                R == T \ {x}
            IN IF R = {} THEN x ELSE LET m == MinOf(R) IN IF Lt(m.t, x.t) THEN m ELSE x

(* What a ray meets first: [k |-> "none"], [k |-> "hit", y |-> , t |-> ],  *)
(* or [k |-> "?"] where limited precision does not tell.                   *)
UNSURE == [k |-> "?", y |-> 0, t |-> ZERO]
NOTHING == [k |-> "none", y |-> 0, t |-> ZERO]
First(S, v, d, from) ==
    IF from < 0 /\ \E y \in 1..Len(S) : S[y].skip THEN UNSURE
    ELSE LET open == OpenTo(S, from)
             ms == TLCEval([y \in open |-> Meet(S[y].g, S[y].f, v, d)])
             hits(y) == { [y |-> y, t |-> t] : t \in ms[y].sure }
             cand(y) == { [y |-> y, t |-> t] : t \in { x \in ms[y].maybe : Gt(Abs(x), ZMARG) } }
             sure == UNION { hits(y) : y \in open }
             maybe == UNION { cand(y) : y \in open }
         IN IF \E y \in open : ms[y].doubt THEN UNSURE
            ELSE IF maybe = {} THEN NOTHING
            ELSE LET m == MinOf(maybe)
                 IN IF m \in sure /\ \A x \in maybe : x = m \/ Gt(x.t, Add(m.t, NEARTOL))
                    THEN [k |-> "hit", y |-> m.y, t |-> m.t]
                    ELSE UNSURE
=============================================================================
