-------------------------------- MODULE Steer --------------------------------
(***************************************************************************)
(* A program that dead reckons: it holds arrays, passes them to the        *)
(* algorithms, uses the results as the next inputs and changes arrays in   *)
(* place.  Angles are whole quarter turns and rates quarter turns per      *)
(* second, so that everything is an integer: a rotation permutes the axes. *)
(*                                                                         *)
(* store: the arrays in the program, id |-> <<n1, n2, n3>>                 *)
(* uses:  the array passed as "P"osition, "V"elocity, "A"cceleration,      *)
(*        "O"rientation and "W" (angular velocity)                         *)
(* Results are new arrays; nothing else in the store ever changes but by   *)
(* the program's own hand.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS Depth, EmitOn, Arrays
VARIABLES store, uses, hist
vars == <<store, uses, hist>>
View == <<store, uses>>

Algorithms == <<"static", "fpw", "rpw", "rvw", "fvw", "fpb", "rpb", "rvb", "fvb">>
Rotating == {"rpw", "rvw", "rpb", "rvb"}
Accelerated == {"rvw", "fvw", "rvb", "fvb"}
InBody == {"fpb", "rpb", "rvb", "fvb"}
Roles == {"P", "V", "A", "O", "W"}
SinQ(q) == <<0, 1, 0, -1>>[(q % 4) + 1]
CosQ(q) == <<1, 0, -1, 0>>[(q % 4) + 1]

Plus(u, v) == <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
Scale(u, r) == <<u[1]*r, u[2]*r, u[3]*r>>
(* Roll about x, then pitch about y, then yaw about z, one after the other. *)
RollBy(q, v) == <<v[1], CosQ(q)*v[2] - SinQ(q)*v[3], SinQ(q)*v[2] + CosQ(q)*v[3]>>
PitchBy(q, v) == <<CosQ(q)*v[1] + SinQ(q)*v[3], v[2], -SinQ(q)*v[1] + CosQ(q)*v[3]>>
YawBy(q, v) == <<CosQ(q)*v[1] - SinQ(q)*v[2], SinQ(q)*v[1] + CosQ(q)*v[2], v[3]>>
ToWorld(O, v) == YawBy(O[1], PitchBy(O[2], RollBy(O[3], v)))
Position(alg, P, V, A, O, dt) ==
    LET move == IF alg = "static" THEN <<0, 0, 0>>
                ELSE IF alg \in Accelerated THEN Plus(Scale(V, dt), Scale(<<A[1] \div 2, A[2] \div 2, A[3] \div 2>>, dt*dt))
                ELSE Scale(V, dt)
    IN Plus(P, IF alg \in InBody THEN ToWorld(O, move) ELSE move)
Orientation(alg, O, W, dt) ==
    IF alg \notin Rotating THEN O
    ELSE LET turn == W[2]*SinQ(O[3]) + W[3]*CosQ(O[3])
             nod == W[2]*CosQ(O[3]) - W[3]*SinQ(O[3])
             yaw == turn * CosQ(O[2])       (* turn / cos, cos = 1 or -1; zero at gimbal lock *)
         IN <<O[1] + dt*yaw, O[2] + dt*nod, O[3] + dt*W[1]>>

Values == {-4, 0, 6}
Vectors == {<<0, 0, 0>>, <<2, 0, 0>>, <<0, -4, 2>>, <<6, 8, -10>>}
Angles == {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, -1>>, <<1, 2, 3>>, <<-1, 1, 2>>, <<2, 0, 1>>}
Init == /\ store \in {<<p, v, c, o, w>> : p \in {<<100, -200, 300>>}, v \in {<<2, 0, 0>>, <<6, 8, -10>>}, c \in {<<0, -4, 2>>},
                                          o \in Angles, w \in {<<1, 0, 0>>, <<0, 1, 2>>, <<0, 0, 1>>}}
        /\ uses = [r \in Roles |-> CASE r = "P" -> 1 [] r = "V" -> 2 [] r = "A" -> 3 [] r = "O" -> 4 [] r = "W" -> 5]
        /\ hist = IF EmitOn THEN << <<"start", 0, 0, store, uses>> >> ELSE << >>
Log(op) == hist' = IF EmitOn THEN Append(hist, op \o <<store', uses'>>) ELSE << >>
At(r) == store[uses[r]]
Call == \E k \in DOMAIN Algorithms : \E dt \in {-2, 0, 1, 3} :
    LET alg == Algorithms[k] IN
    /\ Len(store) + 2 <= Arrays
    /\ store' = store \o <<Position(alg, At("P"), At("V"), At("A"), At("O"), dt), Orientation(alg, At("O"), At("W"), dt)>>
    /\ uses' = uses
    /\ Log(<<"call", alg, dt>>)
(* Go on from the last result: the very arrays the algorithm returned. *)
GoOn == /\ Len(store) > 5 /\ uses["P"] # Len(store) - 1
        /\ uses' = [uses EXCEPT !["P"] = Len(store) - 1, !["O"] = Len(store)]
        /\ store' = store
        /\ Log(<<"go", 0, 0>>)
(* The program writes into an array it holds, a result or an argument. *)
Poke == \E j \in DOMAIN store : \E i \in 1..3 : \E y \in Values :
    /\ store[j][i] # y
    /\ store' = [store EXCEPT ![j][i] = y]
    /\ uses' = uses
    /\ Log(<<"poke", j, <<i, y>> >>)
Stop == Len(hist) = Depth + 1 /\ hist' = Append(hist, <<"end">>) /\ UNCHANGED <<store, uses>>
Next == (Len(hist) <= Depth /\ (Call \/ GoOn \/ Poke)) \/ Stop
Spec == Init /\ [][Next]_vars

TypeOK == /\ \A j \in DOMAIN store : Len(store[j]) = 3 /\ \A i \in 1..3 : store[j][i] \in Int
          /\ \A r \in Roles : uses[r] \in DOMAIN store
(* The laws of the equations, at every state reached. *)
Laws ==
    LET P == At("P")  V == At("V")  A == At("A")  O == At("O")  W == At("W") IN
    \A k \in DOMAIN Algorithms : LET alg == Algorithms[k] IN
        /\ Position(alg, P, V, A, O, 0) = P /\ Orientation(alg, O, W, 0) = O
        /\ Orientation(alg, O, <<0, 0, 0>>, 3) = O
        /\ Position(alg, P, <<0, 0, 0>>, <<0, 0, 0>>, O, 3) = P
        \* steady motion: two steps are one
        /\ alg \notin Accelerated => Position(alg, Position(alg, P, V, A, O, 2), V, A, O, 3) = Position(alg, P, V, A, O, 5)
        \* a rotation preserves length
        /\ LET d == Plus(Position(alg, P, V, <<0, 0, 0>>, O, 1), Scale(P, -1)) IN
           alg # "static" => d[1]*d[1] + d[2]*d[2] + d[3]*d[3] = V[1]*V[1] + V[2]*V[2] + V[3]*V[3]
        \* level flight: body axes are world axes
        /\ O = <<0, 0, 0>> /\ alg = "rvb" => Position(alg, P, V, A, O, 3) = Position("rvw", P, V, A, O, 3)
(* Nothing the program holds changes but the element it pokes. *)
Steady == [][\A j \in DOMAIN store : store'[j] = store[j]
              \/ (Len(store') = Len(store) /\ \E i \in 1..3 : store' = [store EXCEPT ![j][i] = store'[j][i]])]_vars
Shallow == TLCGet("level") <= Depth
Emit == (EmitOn /\ Len(hist) = Depth + 2) => PrintT(ToJson([hist |-> hist]))
=============================================================================
