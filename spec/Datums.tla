------------------------------ MODULE Datums ------------------------------
(***************************************************************************)
(* Variable datums of every bit length, alone and several in a message     *)
(* with fixed datums among them.                                           *)
(***************************************************************************)
EXTENDS Gen, Json
CONSTANTS MaxBits,      \* a datum alone: every bit length up to this
          Long,         \* long ones too, alone and in a message
          MaxPair,      \* two datums: the first of every bit length up to this
          Lens,         \* bit lengths of the datums of messages
          Many,         \* numbers of datums of messages with a great many
          Most, EmitOn
VARIABLES phase, cls, lens, fixed, pat, obj, out, got
vars == <<phase, cls, lens, fixed, pat, obj, out, got>>
Has(c, t) == \E i \in DOMAIN Layout[c].f : Layout[c].f[i].k = "list" /\ Layout[c].f[i].t = t
Carriers == { c \in Classes : Has(c, "VariableDatum") }
DBs(p, k, w) == [i \in 1..w |-> Byte(p, k + i)]
Datum(n, k) == << <<k % 256, k \div 256, 255, n % 256>>, <<NatBytes(n, 4), DBs(pat, k * 31, (n + 7) \div 8)>> >>
Fixed(k) == << <<255, k % 256, k \div 256, 7>>, DBs(pat, k * 13, 4) >>
Build(c, ls, f) ==
    IF c = "VariableDatum" THEN Datum(ls[1], 1)
    ELSE [i \in DOMAIN Layout[c].f |-> LET it == Layout[c].f[i] IN
          IF it.k = "list" /\ it.t = "VariableDatum" THEN [j \in DOMAIN ls |-> Datum(ls[j], j)]
          ELSE IF it.k = "list" /\ it.t = "FixedDatum" THEN [j \in 1..f |-> Fixed(j)]
          ELSE Default(c)[i]]
Cycle == <<1, 64, 8, 200, 0, 65, 33>>
Seqs(S, n) == UNION { [1..m -> S] : m \in 0..n }
Init == phase = "start" /\ cls = "" /\ lens = << >> /\ fixed = 0 /\ pat = "" /\ obj = << >> /\ out = << >> /\ got = << >>
Pick == /\ phase = "start" /\ phase' = "picked"
        /\ pat' \in {"ctr", "ff"}
        /\ \/ cls' = "VariableDatum" /\ fixed' = 0 /\ \E n \in 0..MaxBits : lens' = <<n>>
           \/ cls' \in {"VariableDatum", "CommentPdu"} /\ pat' = "ctr" /\ fixed' = 0 /\ \E n \in Long : lens' = <<n>>
           \/ cls' \in Carriers /\ fixed' \in {0, 2} /\ lens' \in Seqs(Lens, Most)
           \/ cls' \in Carriers /\ pat' = "ctr" /\ \E n \in Many : lens' = [i \in 1..n |-> Cycle[1 + (i % Len(Cycle))]] /\ fixed' \in {0, n}
           \/ cls' = "DataPdu" /\ fixed' = 1 /\ pat' = "ff" /\ \E n \in 0..MaxPair, m \in {0, 8, 33} : lens' = <<n, m>>
        /\ (fixed' = 0 \/ Has(cls', "FixedDatum")) /\ UNCHANGED <<obj, out, got>>
Write == /\ phase = "picked" /\ phase' = "written"
         /\ obj' = Build(cls, lens, fixed) /\ out' = EncTop(cls, obj') /\ UNCHANGED <<cls, lens, fixed, pat, got>>
Read == /\ phase = "written" /\ phase' = "read" /\ got' = DecTop(cls, out \o <<255, 1>>) /\ UNCHANGED <<cls, lens, fixed, pat, obj, out>>
Next == Pick \/ Write \/ Read
Spec == Init /\ [][Next]_vars
\* C11, said without the codec
Ceil(n, m) == (n + m - 1) \div m
OnWire(n) == 8 + 8 * Ceil(n, 64)
Base == Len(EncTop(cls, Build(cls, << >>, 0)))
Sized == phase = "written" =>
    Len(out) = IF cls = "VariableDatum" THEN OnWire(lens[1]) ELSE Base + 8 * fixed + Sum([j \in DOMAIN lens |-> OnWire(lens[j])])
\* the j-th datum lies where those before it end: identifier, length, value, zeros up to the boundary
Start(j) == Len(out) - Sum([i \in DOMAIN lens |-> IF i < j THEN 0 ELSE OnWire(lens[i])])
Framed == phase = "written" => \A j \in DOMAIN lens :
    LET d == SubSeq(out, Start(j) + 1, Start(j) + OnWire(lens[j])) n == lens[j] IN
    /\ SubSeq(d, 1, 4) = <<j % 256, j \div 256, 255, n % 256>>
    /\ SubSeq(d, 5, 8) = <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
    /\ SubSeq(d, 9, 8 + Ceil(n, 8)) = DBs(pat, j * 31, Ceil(n, 8))
    /\ \A i \in (9 + Ceil(n, 8))..Len(d) : d[i] = 0
Restored == phase = "read" => got.ok /\ got.v = obj /\ got.p = Len(out) + 1
Emit == (EmitOn /\ phase = "written") =>
    LET pr == PrimsTop(cls, obj) IN
    PrintT(ToJson([c |-> cls, s |-> 9, pat |-> IF Len(lens) > 3 THEN "long" ELSE pat, v |-> obj, b |-> out, ops |-> [i \in DOMAIN pr |-> <<pr[i].k, pr[i].path, Len(pr[i].b)>>]]))
=============================================================================
