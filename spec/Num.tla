-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Fixed-point real numbers for specifications that TLC evaluates.         *)
(*                                                                         *)
(* A number is a pair <<hi, lo>> with 0 <= lo < 2^30 and stands for        *)
(*         (hi * 2^30 + lo) * 2^(-40)                                      *)
(* i.e. range +-2^21, resolution 2^-40 (9.1e-13).  Three reserved pairs    *)
(* stand for +infinity, -infinity and "undefined".  The definitions below  *)
(* are the meaning of the operators; TLC's own integers have 32 bits, so   *)
(* TLC evaluates them through java/Num.java, which implements exactly      *)
(* these definitions (bin/selftest compares the two on random operands).   *)
(***************************************************************************)
EXTENDS Integers

HB     == 1073741824                   \* 2^30
INF    == << 2147483647, 0 >>
NINF   == << -2147483647, 0 >>
NAN    == << 2147483647, 1 >>

IsNaN(x) == x = NAN
IsInf(x) == x = INF \/ x = NINF
IsFin(x) == ~IsNaN(x) /\ ~IsInf(x)

Raw(x)   == x[1] * HB + x[2]           \* value in units of 2^-40
TooBig(n) == n >= 2147483647 * HB \/ n <= -2147483647 * HB
Enc(n)   == IF TooBig(n) THEN NAN ELSE << n \div HB, n % HB >>

FromInt(n) == Enc(n * 1024 * HB)       \* the integer n

Opp(x) == IF IsNaN(x) THEN NAN
          ELSE IF x = INF THEN NINF ELSE IF x = NINF THEN INF
          ELSE Enc(-Raw(x))

Add(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN NAN
             ELSE IF IsInf(x) THEN (IF IsInf(y) /\ x # y THEN NAN ELSE x)
             ELSE IF IsInf(y) THEN y
             ELSE Enc(Raw(x) + Raw(y))

Sub(x, y) == Add(x, Opp(y))

Sgn(x) == IF IsNaN(x) THEN 0
          ELSE IF x = INF THEN 1 ELSE IF x = NINF THEN -1
          ELSE IF Raw(x) > 0 THEN 1 ELSE IF Raw(x) < 0 THEN -1 ELSE 0

Mul(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN NAN
             ELSE IF IsInf(x) \/ IsInf(y)
                  THEN IF Sgn(x) * Sgn(y) = 0 THEN NAN
                       ELSE IF Sgn(x) * Sgn(y) > 0 THEN INF ELSE NINF
             ELSE Enc((Raw(x) * Raw(y) + 512 * HB) \div (1024 * HB))

Div(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN NAN
             ELSE IF IsInf(y) THEN (IF IsInf(x) THEN NAN ELSE << 0, 0 >>)
             ELSE IF Raw(y) = 0 THEN NAN
             ELSE IF IsInf(x) THEN (IF Sgn(y) > 0 THEN x ELSE Opp(x))
             ELSE Enc((Sgn(y) * Raw(x) * 1024 * HB)
                          \div (IF Raw(y) < 0 THEN -Raw(y) ELSE Raw(y)))

\* Integer square root of raw * 2^40, rounded down; undefined for negatives.
Sqrt(x) == IF IsNaN(x) \/ Sgn(x) < 0 THEN NAN
           ELSE IF x = INF THEN INF
           ELSE Enc(CHOOSE r \in Nat : /\ r * r <= Raw(x) * 1024 * HB
                                       /\ (r + 1) * (r + 1) > Raw(x) * 1024 * HB)

Lt(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN FALSE
            ELSE x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Le(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN FALSE
            ELSE x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])

Abs(x)  == IF Sgn(x) < 0 THEN Opp(x) ELSE x
MinN(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN NAN ELSE IF Le(x, y) THEN x ELSE y
MaxN(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN NAN ELSE IF Le(x, y) THEN y ELSE x
=============================================================================
