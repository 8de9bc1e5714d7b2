----------------------------- MODULE Transmit -----------------------------
(***************************************************************************)
(* Transmitter PDUs received: type fields, declared lengths, the octets of *)
(* the variable parts.  What each part is read as, and what is written.    *)
(***************************************************************************)
EXTENDS Gen, Json
CONSTANTS Systems, Majors, ModLens, AntTypes, AntLens, Lists, LongMods, LongAnts, Deep, EmitOn
VARIABLES phase, in, base, hq, sent, wire, got
vars == <<phase, in, base, hq, sent, wire, got>>
TF == Layout["TransmitterPdu"].f
TBs(k, w) == [i \in 1..w |-> ((k + i * 37) % 127) + (128 * ((i + 1) % 2))]      \* no NaN
Unk(j, n) == <<"Unknown", <<0, 0>> \o NatBytes(6000 + j, 2), TBs(j, n)>>
ListOf(l) == CASE l = 0 -> << >> [] l = 1 -> <<hq>> [] l = 2 -> <<Unk(1, 2)>> [] l = 3 -> <<hq, Unk(2, 10)>>
               [] l = 4 -> <<Unk(3, 18), Unk(4, 2), hq>>
\* the PDU on the wire: its parts are just octets
Sent(x) == [Transmit(base, x.system, x.major,
             IF x.ml = 0 THEN << >> ELSE <<"UnknownRadio", <<TBs(11, x.ml)>> >>,
             x.at, IF x.al = 0 THEN << >> ELSE <<"UnknownAntennaPattern", <<TBs(90, x.al)>> >>)
     EXCEPT ![ListIndex(TF, "variableTransmitterParameters")] = ListOf(x.l)]
Init == /\ phase = "start" /\ base = Default("TransmitterPdu")
        /\ hq = <<"HighFidelityHAVEQUICKRadio", NatBytes(3000, 4), GenC("HighFidelityHAVEQUICKRadio", 1, "mix", 3)[1]>>
        /\ in = << >> /\ sent = << >> /\ wire = << >> /\ got = << >>
Combos == { [system |-> s, major |-> m, ml |-> n, at |-> t, al |-> a, l |-> l] :
            s \in Systems, m \in Majors, n \in ModLens, t \in AntTypes, a \in AntLens, l \in Lists }
\* lengths near and at the most the declared lengths can say
Longs == { [system |-> s, major |-> 1, ml |-> n, at |-> t, al |-> a, l |-> 3] : s \in {2, 9}, n \in LongMods, t \in {1, 3}, a \in {0, 40} }
         \cup { [system |-> 6, major |-> 1, ml |-> n, at |-> t, al |-> a, l |-> 3] : n \in {0, 16}, t \in {1, 3}, a \in LongAnts }
Wanted(x) == Deep \/ (x.at = 1 /\ x.al \in {0, 40} /\ x.l \in {0, 3}) \/ (x.system \in {3, 6} /\ x.major = 0 /\ x.ml \in {0, 16, 17})
Pick == /\ phase = "start" /\ phase' = "picked"
        /\ \E x \in { y \in Combos : Wanted(y) } \cup Longs : in' = x
        /\ UNCHANGED <<base, hq, sent, wire, got>>
Make == phase = "picked" /\ phase' = "made" /\ sent' = Sent(in) /\ UNCHANGED <<base, hq, in, wire, got>>
Send == phase = "made" /\ phase' = "sent" /\ wire' = EncTop("TransmitterPdu", sent) /\ UNCHANGED <<base, hq, in, sent, got>>
Receive == phase = "sent" /\ phase' = "received" /\ got' = DecTop("TransmitterPdu", wire) /\ UNCHANGED <<base, hq, in, sent, wire>>
Next == Pick \/ Make \/ Send \/ Receive
Spec == Init /\ [][Next]_vars
ModPart == got.v[ListIndex(TF, "modulationParameters")]
AntPart == got.v[ListIndex(TF, "antennaPattern")]
ListPart == got.v[ListIndex(TF, "variableTransmitterParameters")]
\* C12
Whole == phase = "received" => got.ok /\ got.p = Len(wire) + 1 /\ EncTop("TransmitterPdu", got.v) = wire
Selected == phase = "received" =>
    /\ (ModPart = << >>) = (in.ml = 0)
    /\ (AntPart = << >>) = (in.al = 0)
    /\ in.ml # 0 => /\ (ModPart[1] = "BasicHaveQuickMP") = (in.system \in {2, 3, 4} /\ in.ml = 16)
                    /\ (ModPart[1] = "CCTTSincgarsMP") = (in.system = 6 /\ in.ml = 16)
                    /\ ModPart[1] \in {"BasicHaveQuickMP", "CCTTSincgarsMP", "UnknownRadio"}
    /\ in.al # 0 => (AntPart[1] = "BeamAntennaPattern") = (in.at = 1 /\ in.al = 40)
    /\ ListPart = ListOf(in.l)
\* the parts in order, each of its declared length, after the 104 octets of fixed part
InOrder == phase = "received" =>
    /\ SubSeq(wire, 105, 104 + in.ml) = TBs(11, in.ml)
    /\ SubSeq(wire, 105 + in.ml, 104 + in.ml + in.al) = TBs(90, in.al)
Emit == (EmitOn /\ phase = "received") =>
    LET pr == PrimsTop("TransmitterPdu", got.v) IN
    PrintT(ToJson([c |-> "TransmitterPdu", s |-> 9, pat |-> ToString(in), v |-> got.v, b |-> wire,
                   ops |-> [i \in DOMAIN pr |-> <<pr[i].k, pr[i].path, Len(pr[i].b)>>]]))
=============================================================================
