------------------------------ MODULE GeoTrace ------------------------------
(***************************************************************************)
(* Judges recorded calls of the dead reckoning and coordinate functions:   *)
(* every event holds the arguments and the results, as numbers of Fix.     *)
(*   reckon  an algorithm on a state          matrix, cross  its matrices  *)
(*   ecef, lla, gcc   geodetic <-> earth-centred positions                 *)
(*   ned, unned, pae, distance, degrees       local frames                 *)
(*   attitude, axis, frame                    attitudes                    *)
(*   utm, band                                the UTM grid                 *)
(* Geodetic positions are <<latitude, longitude, altitude>>, in degrees.   *)
(***************************************************************************)
EXTENDS Reckoning, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES phase, line, event, verdict
vars == <<phase, line, event, verdict>>
Unless(ok, why) == IF ok THEN {} ELSE {why}
Micro == Norm(<<0, 0, 0, 100, 0, 0, 0, 0, 0, 0>>)           (* 10^-6 *)
Nano == Norm(<<0, 0, 1000, 0, 0, 0, 0, 0, 0, 0>>)           (* 10^-9 *)
Pico == Norm(<<0, 0, 1, 0, 0, 0, 0, 0, 0, 0>>)              (* 10^-12 *)
Femto == Norm(<<0, 10, 0, 0, 0, 0, 0, 0, 0, 0>>)            (* 10^-15 *)
Milli == Norm(<<0, 0, 0, 0, 10, 0, 0, 0, 0, 0>>)
Point(g) == EcefOf(SinCosDeg(g[1]), SinCosDeg(g[2]), g[3])
Ned(g) == NedRows(SinCosDeg(g[1]), SinCosDeg(g[2]))
Allowance(d) == Add(Milli, Mul(Size(d), Nano))

OfReckon(e) ==
    LET psi == SinCos(e.O[1])  theta == SinCos(e.O[2])  phi == SinCos(e.O[3])
        tol == Add(Add(Mul(Extent(e.alg, e, e.dt), Pico), Femto), Unsure(e.dt))
    IN Unless(Close3(e.P2, Plus(e.P, Displacement(e.alg, e, e.dt, psi, theta, phi)), tol), "position")
       \cup (IF e.alg \in Rotating THEN Turned(e, e.dt, theta, phi, e.O2) ELSE Unless(e.O2 = e.O, "orientation"))
       \cup (IF e.alg = "static" THEN Unless(e.P2 = e.P, "position") ELSE {})
       \cup Unless(e.kept, "input changed") \cup Unless(e.fresh, "shared with input")
OfEcef(e) == Unless(Close3(e.xyz, Point(e.lla), Div(Milli, 10)), "ecef")
(* At a pole the altitude is given to the centimetre. *)
OnAxis(p) == p[1] = Zero /\ p[2] = Zero
OfLla(e) ==
    Unless(AtMost(Abs(e.lla[1]), Of(90)), "latitude range")
    \cup Unless(AtMost(Abs(e.lla[2]), Of(180)), "longitude range")
    \cup (IF OnAxis(e.xyz)
          THEN Unless(e.lla[1] = Of(90 * Sign(e.xyz[3])), "pole")
               \cup Unless(Close(Add(e.lla[3], SemiMinor), Abs(e.xyz[3]), Times(Milli, 6)), "altitude")
          ELSE Unless(Close3(e.xyz, Point(e.lla), Milli), "lla"))
OfGcc(e) == Unless(Close3(e.xyz, IF e.org = << >> THEN Point(e.lla) ELSE Minus(Point(e.lla), Point(e.org)), Div(Milli, 5)), "gcc")

(* The witness g: the geodetic position of the origin of a local frame. *)
Wrong(g, p) == ~(IF OnAxis(p) THEN Abs(g[1]) = Of(90) ELSE Close3(Point(g), p, Micro))
OfNed(e) == IF Wrong(e.g, e.org) THEN {"witness"}
    ELSE LET d == Minus(e.xyz, e.org) IN
         Unless(Close3(e.ned, Apply(Ned(e.g), d), Allowance(d)), "ned") \cup Unless(Close3(e.back, e.xyz, Milli), "back")
OfUnned(e) == IF Wrong(e.g, e.org) THEN {"witness"}
    ELSE Unless(Close3(Minus(e.xyz, e.org), Apply(Transposed(Ned(e.g)), e.ned), Allowance(e.ned)), "ecef")
         \cup Unless(Close3(e.back, e.ned, Milli), "back")
OfPae(e) ==
    LET tol == Add(Mul(Size(e.ned), Pico), Femto)
        slack == IF e.org = << >> THEN tol ELSE Allowance(e.ned)
        want == IF e.org = << >> THEN e.ned ELSE Apply(Ned(e.g), Minus(e.xyz, e.org))
    IN IF e.org # << >> /\ Wrong(e.g, e.org) THEN {"witness"}
       ELSE Unless(Close3(NedOf(e.pae[1], SinCosDeg(e.pae[2]), SinCosDeg(e.pae[3])), want, Times(slack, 10)), "pae")
            \cup Unless(Sign(e.pae[1]) >= 0, "range") \cup Unless(AtMost(Abs(e.pae[3]), Of(90)), "elevation")
OfDistance(e) ==
    LET sum == FoldLeft(LAMBDA s, k : Add(s, Sq(IF e.ref = << >> THEN e.u[k] ELSE Sub(e.u[k], e.ref[k]))), Zero, [k \in 1..Len(e.u) |-> k])
    IN Unless(Sign(e.r) >= 0 /\ Close(Sq(e.r), sum, Add(Mul(sum, Pico), Norm(<<100, 0, 0, 0, 0, 0, 0, 0, 0, 0>>))), "distance")
OfDegrees(e) ==
    LET slack(u) == Add(Mul(Abs(u), Femto), Norm(<<100, 0, 0, 0, 0, 0, 0, 0, 0, 0>>)) IN
    Unless(Close(e.rad, Mul(e.u, Degree), slack(e.u)), "deg2rad") \cup Unless(Close(e.deg, Mul(e.u, Radian), slack(Times(e.u, 60))), "rad2deg")
    \cup Unless(Close(e.deg2, e.u, slack(e.u)), "rad2deg of deg2rad") \cup Unless(Close(e.rad2, e.u, slack(e.u)), "deg2rad of rad2deg")

(* lla with latitude and longitude in radians, rpy = <<roll, pitch, yaw>>, xyz, ptp = <<psi, theta, phi>>. *)
OfAttitude(e) ==
    LET lat == SinCos(e.lla[1])  lon == SinCos(e.lla[2])
        R == Times3(Transposed(NedRows(lat, lon)), Attitude(SinCos(e.rpy[3]), SinCos(e.rpy[2]), SinCos(e.rpy[1])))
        S == Attitude(SinCos(e.ptp[1]), SinCos(e.ptp[2]), SinCos(e.ptp[3]))
    IN Unless(Close3(e.xyz, EcefOf(lat, lon, e.lla[3]), IF OnAxis(e.xyz) THEN Times(Milli, 6) ELSE Milli), "position")
       \cup Unless(Close33(R, S, Nano), "attitude")
OfAxis(e) == Unless(Close33(Rows(e.m), RotAbout(e.axis, SinCos(e.angle)), Times(Femto, 100)), "rotation")
OfFrame(e) == Unless(Close33(Rows(e.m), NedRows(SinCos(e.lat), SinCos(e.lon)), Times(Femto, 10)), "frame")
OfMatrix(e) == Unless(Close33(Rows(e.m), Attitude(SinCos(e.O[1]), SinCos(e.O[2]), SinCos(e.O[3])), Times(Femto, 10)), "matrix")
OfCross(e) == Unless(Rows(e.m) = Cross(e.v), "cross")

OfUtm(e) ==
    LET zone == ZoneOf(e.lla[1], e.lla[2])
        at == Utm(e.lla[1], e.lla[2], zone)
    IN Unless(e.zone = zone, "zone") \cup Unless(e.band = Band(e.lla[1]), "band")
       \cup Unless(Close(e.east, at.x, Milli), "easting") \cup Unless(Close(e.north, at.y, Milli), "northing")
       \cup Unless(Close(e.k, at.k, Nano), "scale") \cup Unless(e.h = e.lla[3], "altitude")
       \cup (IF e.far = << >> THEN {} ELSE Unless(Close3(e.far, Point(e.lla), Milli), "position"))
OfBand(e) == Unless(e.band = Band(e.lat), "band")

Judge(e) ==
    CASE e.e = "reckon" -> OfReckon(e)   [] e.e = "matrix" -> OfMatrix(e)  [] e.e = "cross" -> OfCross(e)
      [] e.e = "ecef" -> OfEcef(e)       [] e.e = "lla" -> OfLla(e)        [] e.e = "gcc" -> OfGcc(e)
      [] e.e = "ned" -> OfNed(e)         [] e.e = "unned" -> OfUnned(e)    [] e.e = "pae" -> OfPae(e)
      [] e.e = "distance" -> OfDistance(e) [] e.e = "degrees" -> OfDegrees(e)
      [] e.e = "attitude" -> OfAttitude(e) [] e.e = "axis" -> OfAxis(e)    [] e.e = "frame" -> OfFrame(e)
      [] e.e = "utm" -> OfUtm(e)         [] e.e = "band" -> OfBand(e)      [] e.e = "raised" -> {"raised"}
      [] e.e = "centre" -> Unless(e.got = "refused", "centre")
Init == phase = "start" /\ line = 0 /\ event = << >> /\ verdict = {}
Load == /\ phase = "start" /\ phase' = "loaded" /\ verdict' = {}
        /\ LET t == Trace IN \E k \in DOMAIN t : line' = k /\ event' = t[k]
Step == phase = "loaded" /\ phase' = "judged" /\ line' = line /\ event' = << >> /\ verdict' = Judge(event)
Next == Load \/ Step
Spec == Init /\ [][Next]_vars
Report == phase = "judged" => (verdict = {} \/ PrintT(ToJson([bad |-> line, why |-> SetToSeq(verdict)])))
ASSUME PrintT(ToJson([events |-> Len(Trace)]))
=============================================================================
