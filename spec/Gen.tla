------------------------------- MODULE Gen -------------------------------
(***************************************************************************)
(* Objects to explore: for every class, a shape (how many elements each    *)
(* list has, which variable parts are present) and a pattern (what the     *)
(* octets of the fields are).  GenTop(c, s, pat) is a tuple of class c.    *)
(***************************************************************************)
EXTENDS Codec

\* "def": the default object (shape 0 only)
Patterns == {"zero", "ff", "80", "7f", "01", "ctr", "mix", "inf", "rev"}
Shapes == 0..4
\* Shape LongBase + n: every list has n elements, every part of free length n octets
LongBase == 100
IsLong(s) == s >= LongBase

Byte(pat, k) ==
    CASE pat = "zero" -> 0
      [] pat = "ff"   -> 255
      [] pat = "80"   -> 128
      [] pat = "7f"   -> 127
      [] pat = "01"   -> 1
      [] pat = "ctr"  -> (k * 7 + 1) % 256
      [] pat = "mix"  -> (k * 89 + (k \div 5) * 31 + 113) % 256
      [] pat = "inf"  -> (k * 53 + 17) % 256
      [] pat = "rev"  -> (255 - k * 3) % 256
LOCAL Bs(pat, k, w) == [i \in 1..w |-> Byte(pat, k + i - 1)]
\* A float pattern that is not a NaN (NaN payloads are outside the properties)
FloatFix(pat, b) ==
    LET w == Len(b)
        isMax == (b[1] % 128 = 127) /\ (IF w = 4 THEN b[2] >= 128 ELSE b[2] >= 240)
    IN IF pat = "inf" THEN <<(b[1] \div 128) * 128 + 127, IF w = 4 THEN 128 ELSE 240>> \o Zeros(w - 2)
       ELSE IF isMax THEN <<b[1], IF w = 4 THEN 127 ELSE 239>> \o SubSeq(b, 3, w)
       ELSE b

\* Number of elements of the o-th list of a class in shape s
LenOf(s, o) == CASE IsLong(s) -> s - LongBase
                 [] s = 0 -> 0
                 [] s = 1 -> 1
                 [] s = 2 -> ((o - 1) % 3) + 1
                 [] s = 3 -> 3 - ((o - 1) % 3)
                 [] s = 4 -> ((o * 2) % 5) + (IF o % 2 = 0 THEN 3 ELSE 0)
Ordinal(items, i) == Cardinality({j \in 1..i : items[j].k \in {"list", "lu", "sv"}})
\* Bit lengths of the variable datums, by shape and running number
DatumBits(s, k) == <<64, 9, 1, 128, 63, 65, 8, 24, 0, 200>>[((s * 3 + k) % 10) + 1]

\* Standard variable records that may occur in a list of family fam
SVChoice(fam, s, j) ==
    LET opts == CASE fam = "vtp" -> <<"HighFidelityHAVEQUICKRadio", "Unknown">>
                  [] fam = "damage" -> <<"DirectedEnergyDamage", "Unknown", "DirectedEnergyPrecisionAimpoint",
                                         "DirectedEnergyAreaAimpoint">>
                  [] OTHER -> <<"DirectedEnergyDamage", "HighFidelityHAVEQUICKRadio", "Unknown",
                                "DirectedEnergyAreaAimpoint", "DirectedEnergyPrecisionAimpoint">>
    IN opts[((s + j) % Len(opts)) + 1]

RECURSIVE GenC(_, _, _, _), GenItems(_, _, _, _, _, _), GenList(_, _, _, _, _, _), GenSVs(_, _, _, _, _, _)
GenC(c, s, pat, k) == GenItems(Layout[c].f, 1, s, pat, k, << >>)
GenList(t, n, s, pat, k, acc) ==
    IF n = 0 THEN <<acc, k>>
    ELSE LET r == GenC(t, IF s = 4 \/ IsLong(s) THEN 1 ELSE s, pat, k) IN GenList(t, n - 1, s, pat, r[2], Append(acc, r[1]))
GenSVs(fam, n, s, pat, k, acc) ==
    IF n = 0 THEN <<acc, k>>
    ELSE LET c == SVChoice(fam, s, n)
             len == 2 + 8 * ((n + s) % 3)
             r == IF c = "Unknown"
                  THEN << <<"Unknown", <<0, 0>> \o NatBytes(5000 + n, 2), Bs(pat, k, len)>>, k + len>>
                  ELSE LET g == GenC(c, Min2(s, 3), pat, k)
                       IN << <<c, NatBytes(Layout[c].ty, 4), g[1]>>, g[2]>>
         IN GenSVs(fam, n - 1, s, pat, r[2], Append(acc, r[1]))
GenItem(items, i, s, pat, k) ==
    LET it == items[i] IN
    CASE it.k \in {"u", "i", "a"} -> <<Bs(pat, k, it.w), k + it.w>>
      [] it.k = "f"    -> <<FloatFix(pat, Bs(pat, k, it.w)), k + it.w>>
      [] it.k = "rec"  -> GenC(it.t, s, pat, k)
      [] it.k \in {"cnt", "plen", "z", "align"} -> << << >>, k>>
      [] it.k = "list" -> IF it.t \in Opaque THEN << << >>, k>>
                          ELSE GenList(it.t, LenOf(s, Ordinal(items, i)), s, pat, k, << >>)
      [] it.k = "lu"   -> LET n == LenOf(s, Ordinal(items, i))
                          IN <<[j \in 1..n |-> Bs(pat, k + (j - 1) * it.w, it.w)], k + n * it.w>>
      [] it.k = "sv"   -> GenSVs(it.t, LenOf(s, Ordinal(items, i)), s, pat, k, << >>)
      [] it.k = "vdat" -> LET n == DatumBits(s, k)
                          IN << <<NatBytes(n, 4), Bs(pat, k, DatumOctets(n))>>, k + DatumOctets(n) + 1>>
      [] it.k = "bits" -> <<[j \in DOMAIN it.w |-> (Byte(pat, k + j) * 257 + j) % PowTwo(it.w[j])], k + 2>>
      [] it.k = "flag" -> << <<Byte(pat, k) % 2>>, k + 1>>
      [] it.k = "rest" -> LET n == IF IsLong(s) THEN s - LongBase ELSE <<0, 8, 3, 16, 40>>[s + 1] IN <<Bs(pat, k, n), k + n>>
      [] it.k \in {"mod", "ant"} -> << << >>, k>>
GenItems(items, i, s, pat, k, acc) ==
    IF i > Len(items) THEN <<acc, k>>
    ELSE LET r == GenItem(items, i, s, pat, k) IN GenItems(items, i + 1, s, pat, r[2], Append(acc, r[1]))

\* The variable parts of a Transmitter PDU, with the fields that select them
WithPart(v, pos, x) == [v EXCEPT ![pos] = x]
Transmit(v, system, major, mod, anttype, ant) ==
    LET f == Layout["TransmitterPdu"].f
        mt == IndexOf(f, "modulationType")
        at == IndexOf(f, "antennaPatternType")
    IN [v EXCEPT ![mt] = [v[mt] EXCEPT ![4] = NatBytes(system, 2), ![2] = NatBytes(major, 2)],
                 ![at] = NatBytes(anttype, 2),
                 ![ListIndex(f, "modulationParameters")] = mod,
                 ![ListIndex(f, "antennaPattern")] = ant]
PartOf(c, s, pat, k) == IF c = "" THEN << >> ELSE <<c, GenC(c, s, pat, k)[1]>>

\* What a constructor without arguments makes: zeros, empty lists and default records, and the
\* defaults the layout states
RECURSIVE Default(_)
Default(c) == [i \in DOMAIN Layout[c].f |->
    LET it == Layout[c].f[i] IN
    CASE it.d # << >> -> it.d
      [] it.k \in {"u", "i", "f", "a"} -> Zeros(it.w)
      [] it.k = "rec"  -> Default(it.t)
      [] it.k = "bits" -> [j \in DOMAIN it.w |-> 0]
      [] it.k = "flag" -> <<0>>
      [] it.k = "vdat" -> <<Zeros(4), << >> >>
      [] OTHER -> << >>]

GenTop(c, s, pat) ==
    LET v == IF pat = "def" THEN Default(c) ELSE GenC(c, s, pat, 0)[1] IN
    IF c # "TransmitterPdu" \/ pat = "def" THEN v
    ELSE CASE s = 0 -> v
           [] s = 1 -> Transmit(v, 3, 7, PartOf("BasicHaveQuickMP", 1, pat, 5), 1, PartOf("BeamAntennaPattern", 1, pat, 9))
           [] s = 2 -> Transmit(v, 6, 1, PartOf("CCTTSincgarsMP", 1, pat, 6), 2, PartOf("UnknownAntennaPattern", 3, pat, 19))
           [] s = 3 -> Transmit(v, 77, 0, PartOf("UnknownRadio", 4, pat, 2), 0, << >>)
           [] IsLong(s) -> Transmit(v, 77, 0, PartOf("UnknownRadio", s, pat, 2), 5, PartOf("UnknownAntennaPattern", s, pat, 7))
           [] s = 4 -> Transmit(v, 1, 2, PartOf("UnknownRadio", 1, pat, 2), 1, PartOf("UnknownAntennaPattern", 1, pat, 19))

\* Does the shape matter for class c?
RECURSIVE Varies(_)
Varies(c) == \E i \in DOMAIN Layout[c].f :
    LET it == Layout[c].f[i] IN
    it.k \in {"list", "lu", "sv", "mod", "ant", "vdat", "rest"} \/ (it.k = "rec" /\ Varies(it.t))
ShapesOf(c) == IF Varies(c) THEN Shapes ELSE {0}
LongShapes(c, lengths) == IF Varies(c) THEN {LongBase + n : n \in lengths} ELSE {}
=============================================================================
