------------------------------- MODULE Field -------------------------------
(***************************************************************************)
(* A heliostat field.  State of a field:                                   *)
(*   [pos |-> positions, th |-> aim height, nrm |-> unit normals]          *)
(* Angles enter as cosine and sine.                                        *)
(***************************************************************************)
EXTENDS Optics, TLC

DOWN == << ZERO, ZERO, Opp(ONE) >>
Built(pos, th) == [pos |-> pos, th |-> th, nrm |-> [k \in 1..Len(pos) |-> DOWN]]
Raised(fd, h) == [fd EXCEPT !.th = h]        \* takes effect at the next aiming

\* the sun at azimuth (ca, sa), at the angle (ce, se) from the zenith
Sun(ca, sa, ce, se) == << Mul(Opp(sa), se), Mul(Opp(ca), se), ce >>
Target(fd) == << ZERO, ZERO, fd.th >>
ToTarget(fd, k) == Unit(VSub(Target(fd), fd.pos[k]))
Half(fd, k, sun) == Unit(VAdd(sun, ToTarget(fd, k)))
Aimed(fd, sun) == [fd EXCEPT !.nrm = [k \in 1..Len(fd.pos) |-> Half(fd, k, sun)]]

\* radial stagger: rows at rmin, rmin + dr, ... < rmax; angles start, start + da, ... < end with da half the
\* azimuthal space; even rows take the even angles, odd rows the odd ones
RECURSIVE CountBelow(_, _, _, _)
CountBelow(x, step, end, n) == IF n > 400 \/ Ge(x, end) THEN n ELSE CountBelow(TLCEval(Add(x, step)), step, end, n + 1)
Clear(x, step, end, n) ==       \* no member so close to the end that rounding decides
    Gt(Abs(Sub(Add(x, Mul(FromInt(n), step)), end)), Eps(20)) /\ (n = 0 \/ Gt(Abs(Sub(Add(x, Mul(FromInt(n - 1), step)), end)), Eps(20)))
\* (c, s) turned n times by (ch, sh)
RECURSIVE TurnList(_, _, _)        \* << a, a + h, a + 2 h, ... >> (n members)
TurnList(q, h, n) ==
    IF Len(q) >= n THEN q
    ELSE LET a == q[Len(q)]
         IN TurnList(TLCEval(Append(q, << Sub(Mul(a[1], h[1]), Mul(a[2], h[2])), Add(Mul(a[2], h[1]), Mul(a[1], h[2])) >>)), h, n)
Stagger(nr, na) == { x \in (0..(nr - 1)) \X (0..(na - 1)) : x[1] % 2 = x[2] % 2 }
=============================================================================
