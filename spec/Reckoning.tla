----------------------------- MODULE Reckoning -----------------------------
(***************************************************************************)
(* Dead reckoning: where an entity is after a time dt, by each algorithm.  *)
(* A state s holds P, V, A (vectors), O = <<psi, theta, phi>> and          *)
(* W = <<p, q, r>>, the body angular velocity.                             *)
(***************************************************************************)
EXTENDS Geodesy
Algorithms == {"static", "fpw", "rpw", "rvw", "fvw", "fpb", "rpb", "rvb", "fvb"}
Rotating == {"rpw", "rvw", "rpb", "rvb"}            (* the orientation turns *)
Accelerated == {"rvw", "fvw", "rvb", "fvb"}         (* the acceleration counts *)
InBody == {"fpb", "rpb", "rvb", "fvb"}              (* velocity and acceleration are in body axes *)

Displacement(alg, s, dt, psi, theta, phi) ==
    IF alg = "static" THEN <<Zero, Zero, Zero>>
    ELSE LET d == IF alg \in Accelerated
                  THEN Plus(Scale(s.V, dt), Scale(s.A, Div(Sq(dt), 2)))
                  ELSE Scale(s.V, dt)
         IN IF alg \in InBody THEN Apply(Attitude(psi, theta, phi), d) ELSE d
(* The inputs are known to half of 10^-20 each: what that may come to in the position. *)
Unsure(dt) == Mul(Add(Sq(dt), Abs(dt)), Norm(<<2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>))
(* How large the terms of the position are: the rounding it may have. *)
Extent(alg, s, dt) == Add(Size(s.P), Add(Mul(Size(s.V), Abs(dt)), IF alg \in Accelerated THEN Mul(Size(s.A), Sq(dt)) ELSE Zero))

(* Gimbal lock: the cosine of the pitch below a millionth. *)
Threshold == Norm(<<0, 0, 0, 100, 0, 0, 0, 0, 0, 0>>)
Locked(theta) == Less(Abs(theta[2]), Threshold)
(* O2 = O + dt * rates, where (q sin phi + r cos phi) = turn and
       psi' cos theta = turn,  theta' = q cos phi - r sin phi,  (phi' - p) cos theta = turn sin theta,
   and at gimbal lock psi' = 0, phi' = p. *)
Turned(s, dt, theta, phi, O2) ==
    LET turn == Mul(dt, Add(Mul(s.W[2], phi[1]), Mul(s.W[3], phi[2])))
        nod == Mul(dt, Sub(Mul(s.W[2], phi[2]), Mul(s.W[3], phi[1])))
        spin == Mul(dt, s.W[1])
        d == Minus(O2, s.O)
        part == Mul(Mul(Size(s.W), Abs(dt)), Norm(<<0, 0, 1000, 0, 0, 0, 0, 0, 0, 0>>))    (* 10^-9 of the turn *)
        unit == Norm(<<0, 1, 0, 0, 0, 0, 0, 0, 0, 0>>)                                     (* 10^-16 *)
        tol == Add(Add(part, Mul(Size(s.O), Norm(<<0, 50, 0, 0, 0, 0, 0, 0, 0, 0>>))), unit)
    IN (IF Locked(theta)
        THEN (IF Close(d[1], Zero, unit) THEN {} ELSE {"yaw"}) \cup (IF Close(d[3], spin, tol) THEN {} ELSE {"roll"})
        ELSE (IF Close(Mul(d[1], theta[2]), turn, tol) THEN {} ELSE {"yaw"})
             \cup (IF Close(Mul(Sub(d[3], spin), theta[2]), Mul(turn, theta[1]), tol) THEN {} ELSE {"roll"}))
       \cup (IF Close(d[2], nod, tol) THEN {} ELSE {"pitch"})
=============================================================================
