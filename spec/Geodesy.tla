------------------------------ MODULE Geodesy ------------------------------
(***************************************************************************)
(* The WGS84 ellipsoid and the frames on it.  Vectors are <<x, y, z>>,     *)
(* matrices three rows; all numbers are those of Fix.  Angles come as      *)
(* <<sine, cosine>>.                                                       *)
(***************************************************************************)
EXTENDS Fix, FiniteSets
SemiMajor == Of(6378137)
SemiMinor == <<0, 0, 0, 0, 3142, -3248, 636, 0, 0, 0>>          (* 6356752.3142 *)
EccSq == <<652, 2608, 4, -562, 67, 0, 0, 0, 0, 0>>                       (* 1 - b^2/a^2 *)

Plus(u, v) == <<Add(u[1], v[1]), Add(u[2], v[2]), Add(u[3], v[3])>>
Minus(u, v) == <<Sub(u[1], v[1]), Sub(u[2], v[2]), Sub(u[3], v[3])>>
Scale(u, r) == <<Mul(u[1], r), Mul(u[2], r), Mul(u[3], r)>>
Dot(u, v) == Add(Add(Mul(u[1], v[1]), Mul(u[2], v[2])), Mul(u[3], v[3]))
Apply(R, v) == <<Dot(R[1], v), Dot(R[2], v), Dot(R[3], v)>>
Transposed(R) == << <<R[1][1], R[2][1], R[3][1]>>, <<R[1][2], R[2][2], R[3][2]>>, <<R[1][3], R[2][3], R[3][3]>> >>
Times3(R, S) == LET T == Transposed(S) IN
    << <<Dot(R[1], T[1]), Dot(R[1], T[2]), Dot(R[1], T[3])>>,
       <<Dot(R[2], T[1]), Dot(R[2], T[2]), Dot(R[2], T[3])>>,
       <<Dot(R[3], T[1]), Dot(R[3], T[2]), Dot(R[3], T[3])>> >>
Rows(m) == << <<m[1], m[2], m[3]>>, <<m[4], m[5], m[6]>>, <<m[7], m[8], m[9]>> >>
Size(v) == Larger(Larger(Abs(v[1]), Abs(v[2])), Abs(v[3]))          (* the largest component *)
Close(u, v, tol) == AtMost(Abs(Sub(u, v)), tol)
Close3(u, v, tol) == Close(u[1], v[1], tol) /\ Close(u[2], v[2], tol) /\ Close(u[3], v[3], tol)
Close33(R, S, tol) == \A i \in 1..3 : Close3(R[i], S[i], tol)

(* Rotations about the axes, and about a unit vector: right-handed, acting on column vectors. *)
RotX(t) == << <<One, Zero, Zero>>, <<Zero, t[2], Neg(t[1])>>, <<Zero, t[1], t[2]>> >>
RotY(t) == << <<t[2], Zero, t[1]>>, <<Zero, One, Zero>>, <<Neg(t[1]), Zero, t[2]>> >>
RotZ(t) == << <<t[2], Neg(t[1]), Zero>>, <<t[1], t[2], Zero>>, <<Zero, Zero, One>> >>
Cross(v) == << <<Zero, Neg(v[3]), v[2]>>, <<v[3], Zero, Neg(v[1])>>, <<Neg(v[2]), v[1], Zero>> >>
RotAbout(n3, t) ==
    LET k == Sub(One, t[2])
        C == Cross(n3)
    IN [i \in 1..3 |-> [j \in 1..3 |->
            Add(Add(Mul(k, Mul(n3[i], n3[j])), IF i = j THEN t[2] ELSE Zero), Mul(t[1], C[i][j]))]]
(* Yaw, then pitch, then roll: body to reference axes. *)
Attitude(yaw, pitch, roll) == Times3(RotZ(yaw), Times3(RotY(pitch), RotX(roll)))

(* The geodetic position <<latitude, longitude, altitude>> as a point. *)
EcefOf(lat, lon, alt) ==
    LET r == Mul(SemiMajor, RSqrtNear1(Sub(One, Mul(EccSq, Sq(lat[1])))))
        h == Mul(Add(r, alt), lat[2])
    IN <<Mul(h, lon[2]), Mul(h, lon[1]), Mul(Add(Mul(r, Sub(One, EccSq)), alt), lat[1])>>
(* The rows north, east and down in the axes of the earth. *)
NedRows(lat, lon) ==
    << <<Neg(Mul(lat[1], lon[2])), Neg(Mul(lat[1], lon[1])), lat[2]>>,
       <<Neg(lon[1]), lon[2], Zero>>,
       <<Neg(Mul(lat[2], lon[2])), Neg(Mul(lat[2], lon[1])), Neg(lat[1])>> >>
(* The vector north, east, down of a range and the sines and cosines of azimuth and elevation. *)
NedOf(range, az, el) == <<Mul(range, Mul(el[2], az[2])), Mul(range, Mul(el[2], az[1])), Neg(Mul(range, el[1]))>>

-----------------------------------------------------------------------------
(* Universal Transverse Mercator: the grid zone, in degrees. *)
FloorInt(u) == LET k == Nearest(u) IN IF Less(u, Of(k)) THEN k - 1 ELSE k
Within(u, lo, hi) == AtMost(Of(lo), u) /\ Less(u, Of(hi))
Band(lat) ==
    IF Less(lat, Of(-80)) \/ Less(Of(84), lat) THEN "Z"
    ELSE LET k == (FloorInt(lat) + 80) \div 8 + 1
             letters == <<"C", "D", "E", "F", "G", "H", "J", "K", "L", "M", "N", "P", "Q", "R", "S", "T", "U", "V", "W", "X">>
         IN letters[IF k > 20 THEN 20 ELSE k]
ZoneOf(lat, lon) ==
    IF Within(lat, 56, 64) /\ Within(lon, 3, 12) THEN 32
    ELSE IF Within(lat, 72, 84) /\ Within(lon, 0, 42) THEN
        (IF Within(lon, 0, 9) THEN 31 ELSE IF Within(lon, 9, 21) THEN 33 ELSE IF Within(lon, 21, 33) THEN 35 ELSE 37)
    ELSE (((FloorInt(lon) + 180) \div 6) % 60) + 1
Meridian(zone) == 6*zone - 183
(* Easting, northing and scale by Snyder (1987), equations 8-9 to 8-11 and 3-21: lat, lon in degrees, zone its zone. *)
Utm(lat, lon, zone) ==
    LET east == Of(Meridian(IF AtMost(Of(180), lon) THEN 61 ELSE zone))
        t == SinCosDeg(lat)
        phi == Mul(lat, Degree)
        k0 == Norm(<<0, 0, 0, 0, 9996, 0, 0, 0, 0, 0>>)
        e4 == Sq(EccSq)
        e6 == Mul(e4, EccSq)
        second == Mul(EccSq, Recip(Sub(One, EccSq)))
        root == RSqrtNear1(Sub(One, Mul(EccSq, Sq(t[1]))))
        v == Mul(SemiMajor, root)
        tangent == Mul(t[1], Recip(t[2]))
        T == Sq(tangent)
        C == Mul(second, Sq(t[2]))
        P == Mul(Mul(Sub(lon, east), Degree), t[2])
        P2 == Sq(P)
        s2 == SinCosDeg(Times(lat, 2))[1]
        s4 == SinCosDeg(Times(lat, 4))[1]
        s6 == SinCosDeg(Times(lat, 6))[1]
        c1 == Sub(Sub(Sub(One, Div(EccSq, 4)), Div(Times(e4, 3), 64)), Div(Times(e6, 5), 256))
        c2 == Add(Add(Div(Times(EccSq, 3), 8), Div(Times(e4, 3), 32)), Div(Times(e6, 45), 1024))
        c3 == Add(Div(Times(e4, 15), 256), Div(Times(e6, 45), 1024))
        c4 == Div(Times(e6, 35), 3072)
        arc == Mul(SemiMajor, Sub(Add(Sub(Mul(c1, phi), Mul(c2, s2)), Mul(c3, s4)), Mul(c4, s6)))
        x5 == Sub(Add(Add(Sub(Of(5), Times(T, 18)), Sq(T)), Times(C, 72)), Times(second, 58))
        y4 == Add(Add(Sub(Of(5), T), Times(C, 9)), Times(Sq(C), 4))
        y6 == Sub(Add(Add(Sub(Of(61), Times(T, 58)), Sq(T)), Times(C, 600)), Times(second, 330))
        k4 == Sub(Add(Add(Sub(Of(5), Times(T, 4)), Times(C, 42)), Times(Sq(C), 13)), Times(second, 28))
        k6 == Add(Sub(Of(61), Times(T, 148)), Times(Sq(T), 16))
        sx == Mul(P, Add(One, Mul(P2, Add(Div(Add(Sub(One, T), C), 6), Div(Mul(x5, P2), 120)))))
        sy == Mul(P2, Add(Div(One, 2), Mul(P2, Add(Div(y4, 24), Div(Mul(y6, P2), 720)))))
        sk == Mul(P2, Add(Div(Add(One, C), 2), Mul(P2, Add(Div(k4, 24), Div(Mul(k6, P2), 720)))))
    IN [x |-> Add(Of(500000), Mul(k0, Mul(v, sx))),
        y |-> Mul(k0, Add(arc, Mul(Mul(v, tangent), sy))),
        k |-> Mul(k0, Add(One, sk))]
=============================================================================
