-------------------------------- MODULE Fix --------------------------------
(***************************************************************************)
(* Real numbers to twenty decimals, for the laws of Geodesy and of dead    *)
(* reckoning.  A number is a tuple of N balanced digits in base 10^4, the  *)
(* least significant first, F of them behind the point:                    *)
(*     x = SUM x[i] * B^(i - F - 1),   -H <= x[i] < H                      *)
(* The representation is unique, |x| < 5 * 10^19, and every operation is   *)
(* right to a few units of the last digit.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
F == 5
N == 10
B == 10000
H == 5000

Zero == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>

(* The digits of SUM c[i] * B^(i - F - 1) for any integers c[i]. *)
Norm(c) ==
    LET t1 == c[1] + H              t2 == c[2] + H + t1 \div B
        t3 == c[3] + H + t2 \div B  t4 == c[4] + H + t3 \div B
        t5 == c[5] + H + t4 \div B  t6 == c[6] + H + t5 \div B
        t7 == c[7] + H + t6 \div B  t8 == c[8] + H + t7 \div B
        t9 == c[9] + H + t8 \div B  t10 == c[10] + H + t9 \div B
    IN << (t1 % B) - H, (t2 % B) - H, (t3 % B) - H, (t4 % B) - H, (t5 % B) - H,
          (t6 % B) - H, (t7 % B) - H, (t8 % B) - H, (t9 % B) - H, (t10 % B) - H >>

IsNumber(u) == DOMAIN u = 1..N /\ \A i \in 1..N : u[i] \in -H..(H-1)

Of(i) == Norm(<<0, 0, 0, 0, 0, i, 0, 0, 0, 0>>)             (* the integer i *)
Add(u, v) == Norm([i \in 1..N |-> u[i] + v[i]])
Sub(u, v) == Norm([i \in 1..N |-> u[i] - v[i]])
Neg(u) == Norm([i \in 1..N |-> -u[i]])
Times(u, i) == Norm([j \in 1..N |-> u[j] * i])                (* i below 400000 *)

(* The product, column by column; column 0 is below the last digit and only carries. *)
Mul(u, v) == Norm(<<
    ((u[1]*v[5] + u[2]*v[4] + u[3]*v[3] + u[4]*v[2] + u[5]*v[1] + H) \div B) + u[1]*v[6] + u[2]*v[5] + u[3]*v[4] +
    u[4]*v[3] + u[5]*v[2] + u[6]*v[1],
    u[1]*v[7] + u[2]*v[6] + u[3]*v[5] + u[4]*v[4] + u[5]*v[3] + u[6]*v[2] + u[7]*v[1],
    u[1]*v[8] + u[2]*v[7] + u[3]*v[6] + u[4]*v[5] + u[5]*v[4] + u[6]*v[3] + u[7]*v[2] + u[8]*v[1],
    u[1]*v[9] + u[2]*v[8] + u[3]*v[7] + u[4]*v[6] + u[5]*v[5] + u[6]*v[4] + u[7]*v[3] + u[8]*v[2] + u[9]*v[1],
    u[1]*v[10] + u[2]*v[9] + u[3]*v[8] + u[4]*v[7] + u[5]*v[6] + u[6]*v[5] + u[7]*v[4] + u[8]*v[3] + u[9]*v[2] +
    u[10]*v[1],
    u[2]*v[10] + u[3]*v[9] + u[4]*v[8] + u[5]*v[7] + u[6]*v[6] + u[7]*v[5] + u[8]*v[4] + u[9]*v[3] + u[10]*v[2],
    u[3]*v[10] + u[4]*v[9] + u[5]*v[8] + u[6]*v[7] + u[7]*v[6] + u[8]*v[5] + u[9]*v[4] + u[10]*v[3],
    u[4]*v[10] + u[5]*v[9] + u[6]*v[8] + u[7]*v[7] + u[8]*v[6] + u[9]*v[5] + u[10]*v[4],
    u[5]*v[10] + u[6]*v[9] + u[7]*v[8] + u[8]*v[7] + u[9]*v[6] + u[10]*v[5],
    u[6]*v[10] + u[7]*v[9] + u[8]*v[8] + u[9]*v[7] + u[10]*v[6] >>)

(* The quotient by an integer from 1 to 200000, rounded down. *)
Div(u, i) ==
    LET q10 == u[10] \div i                   r10 == u[10] % i
        q9 == (r10*B + u[9]) \div i           r9 == (r10*B + u[9]) % i
        q8 == (r9*B + u[8]) \div i            r8 == (r9*B + u[8]) % i
        q7 == (r8*B + u[7]) \div i            r7 == (r8*B + u[7]) % i
        q6 == (r7*B + u[6]) \div i            r6 == (r7*B + u[6]) % i
        q5 == (r6*B + u[5]) \div i            r5 == (r6*B + u[5]) % i
        q4 == (r5*B + u[4]) \div i            r4 == (r5*B + u[4]) % i
        q3 == (r4*B + u[3]) \div i            r3 == (r4*B + u[3]) % i
        q2 == (r3*B + u[2]) \div i            r2 == (r3*B + u[2]) % i
        q1 == (r2*B + u[1]) \div i
    IN Norm(<<q1, q2, q3, q4, q5, q6, q7, q8, q9, q10>>)

(* -1, 0 or 1: the leading digit decides. *)
Sign(u) == LET k == SelectLastInSeq(u, LAMBDA y : y # 0) IN IF k = 0 THEN 0 ELSE IF u[k] > 0 THEN 1 ELSE -1
Less(u, v) == Sign(Sub(u, v)) < 0
AtMost(u, v) == Sign(Sub(v, u)) >= 0
Abs(u) == IF Sign(u) < 0 THEN Neg(u) ELSE u
Larger(u, v) == IF Less(u, v) THEN v ELSE u
Sq(u) == Mul(u, u)

Pi == <<3846, -2068, 3590, -735, 1416, 3, 0, 0, 0, 0>>
HalfPi == <<1923, -1034, -3205, -367, -4292, 2, 0, 0, 0, 0>>
TwoOverPi == <<4308, -4187, 2368, 1977, -3634, 1, 0, 0, 0, 0>>
Degree == <<-423, -567, 2520, -4671, 175, 0, 0, 0, 0, 0>>                (* Pi/180 *)
Radian == <<-2320, 3209, 3082, -2049, 2958, 57, 0, 0, 0, 0>>                (* 180/Pi *)
One == Of(1)

(* Sine and cosine of y, |y| <= Pi/4 and a little: their series, by Horner's rule, to y^21 and y^22. *)
SinSeries(y2) == FoldLeft(LAMBDA s, k : Sub(One, Div(Mul(y2, s), 2*k*(2*k + 1))), One, <<10, 9, 8, 7, 6, 5, 4, 3, 2, 1>>)
CosSeries(y2) == FoldLeft(LAMBDA s, k : Sub(One, Div(Mul(y2, s), 2*k*(2*k - 1))), One, <<11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1>>)
(* The integer nearest to u, |u| below 10^8. *)
Nearest(u) == u[F+1] + B*u[F+2]
(* <<sin u, cos u>>, |u| below 10^5 radians. *)
SinCos(u) ==
    LET k == Nearest(Mul(u, TwoOverPi))
        y == Sub(u, Times(HalfPi, k))
        y2 == Sq(y)
        s == Mul(y, SinSeries(y2))
        c == CosSeries(y2)
    IN CASE k % 4 = 0 -> <<s, c>>
         [] k % 4 = 1 -> <<c, Neg(s)>>
         [] k % 4 = 2 -> <<Neg(s), Neg(c)>>
         [] OTHER -> <<Neg(c), s>>
SinCosDeg(u) == SinCos(Mul(u, Degree))

(* 1/u and 1/sqrt(u) for u from 0.001 to 2 (Newton's rule, from a guess to three digits). *)
Recip(u) ==
    LET guess == Norm(<<0, 0, 0, 0, 100000000 \div (u[F+1]*B + u[F]), 0, 0, 0, 0, 0>>)
    IN FoldLeft(LAMBDA y, i : Mul(y, Sub(Of(2), Mul(u, y))), guess, <<1, 2, 3, 4, 5>>)
RSqrtNear1(u) ==            (* u from 0.98 to 1.02 *)
    FoldLeft(LAMBDA y, i : Div(Mul(y, Sub(Of(3), Mul(u, Sq(y)))), 2), One, <<1, 2, 3, 4, 5>>)
=============================================================================
