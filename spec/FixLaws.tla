------------------------------ MODULE FixLaws ------------------------------
(***************************************************************************)
(* The laws the arithmetic of Fix has to obey, at points a walk visits.    *)
(***************************************************************************)
EXTENDS Fix, TLC
CONSTANTS Steps
VARIABLES step, left, right
vars == <<step, left, right>>
Seeds == { <<1, 0, 0, 0, 0, 1, 0, 0, 0, 0>>, <<-4999, 3517, -17, 4021, -903, 2718, 0, 0, 0, 0>>,
           <<4999, 4999, 4999, 4999, 4999, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, -5000, 0, 0, 0, 0, 0>>, <<33, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
           Zero, Neg(HalfPi), Pi, Div(Pi, 4), Of(-1), Of(9000) }
Small == Norm(<<3, 0, 0, 0, 0, 0, 0, 0, 0, 0>>)
Near(u, v, t) == AtMost(Abs(Sub(u, v)), t)
Init == step = 0 /\ left \in Seeds /\ right \in Seeds
Next == /\ step < Steps
        /\ step' = step + 1
        /\ left' = Add(Mul(SinCos(left)[1], Of(3)), Div(right, 7))
        /\ right' = Sub(Times(SinCos(left)[2], 5), left)
Spec == Init /\ [][Next]_vars
Proper == IsNumber(left) /\ IsNumber(right) /\ IsNumber(Mul(left, right)) /\ IsNumber(Div(left, 300))
Ring == /\ Mul(left, right) = Mul(right, left)
        /\ Sub(Add(left, right), right) = left
        /\ Neg(Neg(left)) = left
        /\ Near(Mul(left, Add(right, One)), Add(Mul(left, right), left), Small)
        /\ Near(Times(Div(left, 301), 301), left, Norm(<<301, 0, 0, 0, 0, 0, 0, 0, 0, 0>>))
        /\ Times(left, 17) = Mul(left, Of(17))
Order == /\ Less(left, right) \/ left = right \/ Less(right, left)
         /\ Less(left, right) <=> Sign(Sub(right, left)) > 0
         /\ AtMost(Zero, Sq(left))
Tiny == Norm(<<100, 0, 0, 0, 0, 0, 0, 0, 0, 0>>)
Circle ==
    LET s == SinCos(left) t == SinCos(right) p == SinCos(Add(left, right))
        wide == Norm(<<0, 100, 0, 0, 0, 0, 0, 0, 0, 0>>)
    IN /\ Near(Add(Sq(s[1]), Sq(s[2])), One, Tiny)
       /\ Near(p[1], Add(Mul(s[1], t[2]), Mul(s[2], t[1])), wide)
       /\ Near(p[2], Sub(Mul(s[2], t[2]), Mul(s[1], t[1])), wide)
Inverses ==
    LET u == Add(Div(Of(1), 500), Sq(SinCos(left)[1]))              (* 0.002 .. 1.002 *)
        w == Add(One, Div(SinCos(left)[2], 60))                     (* 0.983 .. 1.017 *)
        wide == Norm(<<0, 10, 0, 0, 0, 0, 0, 0, 0, 0>>)
    IN /\ Near(Mul(Recip(u), u), One, wide)
       /\ Near(Mul(w, Sq(RSqrtNear1(w))), One, Tiny)
ASSUME /\ SinCos(Zero) = <<Zero, One>>
       /\ Near(SinCos(Div(Pi, 6))[1], Div(One, 2), Tiny)
       /\ Near(SinCos(HalfPi)[2], Zero, Tiny)
       /\ Near(Mul(Degree, Radian), One, Norm(<<100, 0, 0, 0, 0, 0, 0, 0, 0, 0>>))
       /\ Near(Mul(Pi, TwoOverPi), Of(2), Tiny)
=============================================================================
