------------------------------ MODULE Frames ------------------------------
(***************************************************************************)
(* Standard variable records received: frames of a type, a declared length *)
(* and a body, one after the other, in every PDU that carries them.        *)
(***************************************************************************)
EXTENDS Gen, Json
CONSTANTS Lens, BodyPats, EmitOn
VARIABLES phase, cls, empty, frames, wire, got
vars == <<phase, cls, empty, frames, wire, got>>
SVItem(c) == { i \in DOMAIN Layout[c].f : Layout[c].f[i].k = "sv" }
Carriers == { c \in Classes : SVItem(c) # {} }
At(c) == CHOOSE i \in SVItem(c) : TRUE
Fam(c) == Layout[c].f[At(c)].t
Types == { <<0, 0, 11, 184>>, <<0, 0, 15, 160>>, <<0, 0, 15, 161>>, <<0, 0, 17, 148>>,       \* 3000, 4000, 4001, 4500
           <<0, 0, 0, 0>>, <<0, 0, 17, 149>>, <<1, 0, 11, 184>>, <<255, 255, 255, 255>>, <<0, 0, 19, 136>> }
Body(p, n) == [i \in 1..n |-> IF p = "zero" THEN 0 ELSE IF p = "small" THEN (IF i \in {4, 6} THEN 1 ELSE 0) ELSE Byte(p, i)]
Frame(ty, n, p) == ty \o NatBytes(n, 2) \o Body(p, IF n > 6 THEN n - 6 ELSE 0)
\* a frame that is right in the family of the class
Right(c) == IF Fam(c) = "damage" THEN Frame(<<0, 0, 17, 148>>, 40, "ctr")
            ELSE IF Fam(c) = "vtp" THEN Frame(<<0, 0, 11, 184>>, 40, "ctr") ELSE Frame(<<0, 0, 19, 136>>, 16, "ctr")
\* the PDU with these frames in it: an object without records, its count octets changed, the frames in place
Place(c, n, fs) ==
    LET items == Layout[c].f
        before == FlattenSeq([i \in 1..(At(c) - 1) |->
            IF items[i].k = "cnt" /\ items[i].l = items[At(c)].n THEN NatBytes(n * items[i].m + items[i].a, items[i].w) ELSE EncItem(items, empty, i)])
    IN before \o fs      \* the list is the last item
Init == phase = "start" /\ cls = "" /\ empty = << >> /\ frames = << >> /\ wire = << >> /\ got = << >>
Pick == /\ phase = "start" /\ phase' = "picked" /\ UNCHANGED <<frames, wire, got>>
        /\ cls' \in Carriers /\ empty' = (IF cls' \in NoDefault THEN GenTop(cls', 0, "zero") ELSE Default(cls'))
Send == /\ phase = "picked" /\ phase' = "sent" /\ UNCHANGED <<cls, empty, got>>
        /\ \E ty \in Types, n \in Lens, p \in BodyPats : \E pos \in 0..2 :
             /\ frames' = CASE pos = 0 -> <<Frame(ty, n, p)>>
                            [] pos = 1 -> <<Right(cls), Frame(ty, n, p)>>
                            [] pos = 2 -> <<Frame(ty, n, p), Right(cls), Frame(<<0, 0, 19, 137>>, 8, p)>>
        /\ wire' = Place(cls, Len(frames'), FlattenSeq(frames'))
Receive == phase = "sent" /\ phase' = "received" /\ got' = DecTop(cls, wire) /\ UNCHANGED <<cls, empty, frames, wire>>
Next == Pick \/ Send \/ Receive
Spec == Init /\ [][Next]_vars
ASSUME \A c \in Carriers : At(c) = Len(Layout[c].f)
\* C13, said of the frames alone
Ty(f) == SubSeq(f, 1, 4)
Declared(f) == BytesNat(SubSeq(f, 5, 6))
Defined(f) == BytesNat(Ty(f)) \in {3000, 4000, 4001, 4500}
Allowed(f) == Defined(f) => \/ Fam(cls) = "any"
                            \/ Fam(cls) = "vtp" /\ BytesNat(Ty(f)) = 3000
                            \/ Fam(cls) = "damage" /\ BytesNat(Ty(f)) # 3000
WellFramed(f) == Declared(f) >= 8 /\ Declared(f) % 8 = 0 /\ Len(f) = Declared(f)
Refused == phase = "received" => ((\E i \in DOMAIN frames : ~Allowed(frames[i]) \/ ~WellFramed(frames[i])) => ~got.ok)
Placeholders == phase = "received" =>
    ((\A i \in DOMAIN frames : WellFramed(frames[i]) /\ ~Defined(frames[i])) =>
     got.ok /\ got.p = Len(wire) + 1 /\ EncTop(cls, got.v) = wire
            /\ \A i \in DOMAIN frames : got.v[At(cls)][i] = <<"Unknown", Ty(frames[i]), SubSeq(frames[i], 7, Len(frames[i]))>>)
\* each record starts where the declared length of the one before ends
Counted == (phase = "received" /\ got.ok) =>
    /\ Len(got.v[At(cls)]) = Len(frames) /\ got.p = Len(wire) + 1
    /\ \A i \in DOMAIN frames : got.v[At(cls)][i][2] = Ty(frames[i])
    /\ \A i \in DOMAIN frames : LET e == EncSV(got.v[At(cls)][i]) IN Len(e) % 8 = 0 /\ Len(e) = Declared(e)
Emit == (EmitOn /\ phase = "received") => PrintT(ToJson([c |-> cls, b |-> wire, ok |-> got.ok, v |-> got.v,
    re |-> IF got.ok THEN EncTop(cls, got.v) ELSE << >>, frames |-> [i \in DOMAIN frames |-> SubSeq(frames[i], 1, 6)]]))
\* sizes of records that can be written: the length field holds them, or not
Area(n, m) == 12 + 40 * n + 12 * m
AreaPadded(n, m) == ((Area(n, m) + 7) \div 8) * 8
Numbers == {0, 1, 2, 3, 100, 1636, 1637, 1638, 1639, 3276, 5460, 5461}
ASSUME EmitOn => /\ \A n \in {2, 10, 26, 58, 122, 250, 258, 506, 514, 1018, 1026, 2050, 4090, 4098, 8186, 8194, 16386, 32762, 32770, 49154, 65514, 65522, 65528, 65529, 65530, 65538, 70002} : PrintT(ToJson([data |-> n, size |-> n + 6, fits |-> n + 6 < 65536]))
                 /\ \A n \in Numbers, m \in {0, 1, 2, 5459, 5460, 5461, 6000} : PrintT(ToJson([beams |-> n, deps |-> m, size |-> AreaPadded(n, m), fits |-> AreaPadded(n, m) < 65536]))
ASSUME \A n \in {0, 1, 2, 3} : \A m \in {0, 1, 2} :
    Len(EncSV(<<"DirectedEnergyAreaAimpoint", NatBytes(4001, 4), << <<0, 0>>, << >>, << >>,
        [i \in 1..n |-> Default("BeamAntennaPattern")], [i \in 1..m |-> Default("DirectedEnergyTargetEnergyDeposition")], << >> >> >>)) = AreaPadded(n, m)
=============================================================================
