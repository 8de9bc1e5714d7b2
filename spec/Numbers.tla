----------------------------- MODULE Numbers -----------------------------
(***************************************************************************)
(* Numbers as they are before they are octets, and the octets they have.   *)
(* An integer is [neg, mag], mag its magnitude in octets without leading   *)
(* zeros.  A float is [neg, kind, e, bits]: kind "zero", "inf", "nan" or   *)
(* "fin", the last with value 1.b2b3.. * 2^e for bits <<1, b2, b3, ..>>    *)
(* without trailing zeros.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
Pad0(n) == [i \in 1..n |-> 0]
RECURSIVE Strip(_)
Strip(s) == IF s # << >> /\ Head(s) = 0 THEN Strip(Tail(s)) ELSE s
RECURSIVE StripEnd(_)
StripEnd(s) == IF s # << >> /\ s[Len(s)] = 0 THEN StripEnd(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* s + 1 in base m, same length (wraps)
RECURSIVE Inc(_, _)
Inc(s, m) == IF s = << >> THEN << >>
             ELSE LET n == Len(s) IN
                  IF s[n] + 1 < m THEN [s EXCEPT ![n] = s[n] + 1]
                  ELSE Append(Inc(SubSeq(s, 1, n - 1), m), 0)
Complement(s) == Inc([i \in DOMAIN s |-> 255 - s[i]], 256)

IntVal(neg, mag) == [neg |-> neg, mag |-> mag]
WidthOK(v, w) == Len(v.mag) <= w
Wide(v, w) == Pad0(w - Len(v.mag)) \o v.mag
\* unsigned, and two's complement, in w octets
FitsU(v, w) == WidthOK(v, w) /\ ~v.neg
FitsS(v, w) == WidthOK(v, w) /\ (IF v.neg THEN Complement(Wide(v, w))[1] >= 128 ELSE Wide(v, w)[1] < 128)
EncU(v, w) == Wide(v, w)
EncS(v, w) == IF v.neg THEN Complement(Wide(v, w)) ELSE Wide(v, w)
DecU(b) == IntVal(FALSE, Strip(b))
DecS(b) == IF b[1] >= 128 THEN IntVal(TRUE, Strip(Complement(b))) ELSE IntVal(FALSE, Strip(b))

OctBits(x) == [i \in 1..8 |-> (x \div (2 ^ (8 - i))) % 2]
BitsOf(b) == FlattenSeq([i \in DOMAIN b |-> OctBits(b[i])])
OctOf(s) == [i \in 1..(Len(s) \div 8) |-> FoldLeft(LAMBDA x, y : x * 2 + y, 0, SubSeq(s, 8 * i - 7, 8 * i))]
NatOf(s) == FoldLeft(LAMBDA x, y : x * 2 + y, 0, s)
\* x in n bits
BitsN(x, n) == [i \in 1..n |-> (x \div (2 ^ (n - i))) % 2]

ExpBits(w) == IF w = 4 THEN 8 ELSE 11
FracBits(w) == IF w = 4 THEN 23 ELSE 52
Bias(w) == IF w = 4 THEN 127 ELSE 1023
Special(neg, k) == [neg |-> neg, kind |-> k, e |-> 0, bits |-> << >>]
Sign(v) == <<IF v.neg THEN 1 ELSE 0>>
\* first n bits of s, zeros after its end
FirstN(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE 0]
\* Exponent and fraction of a finite value, rounded to nearest, ties to even
Packed(v, w) ==
    LET F == FracBits(w)
        low == 1 - Bias(w)                      \* exponent of the subnormals
        kept == IF v.e >= low THEN F + 1 ELSE F + 1 - (low - v.e)
        body == IF v.e >= low THEN BitsN(v.e + Bias(w), ExpBits(w)) \o Tail(FirstN(v.bits, F + 1))
                ELSE Pad0(ExpBits(w)) \o (IF kept <= 0 THEN Pad0(F) ELSE Pad0(F - kept) \o FirstN(v.bits, kept))
        half == kept >= 0 /\ kept + 1 <= Len(v.bits) /\ v.bits[kept + 1] = 1
        more == kept < 0 \/ Len(v.bits) > kept + 1
    IN IF half /\ (more \/ body[Len(body)] = 1) THEN Inc(body, 2) ELSE body
FitsF(v, w) == v.kind # "fin" \/ (v.e <= Bias(w) /\ \E i \in 1..ExpBits(w) : Packed(v, w)[i] = 0)
EncF(v, w) ==
    OctOf(Sign(v) \o (CASE v.kind = "zero" -> Pad0(ExpBits(w) + FracBits(w))
                        [] v.kind = "inf"  -> [i \in 1..ExpBits(w) |-> 1] \o Pad0(FracBits(w))
                        [] v.kind = "fin"  -> Packed(v, w)))
DecF(b) ==
    LET w == Len(b)
        s == BitsOf(b)
        ex == NatOf(SubSeq(s, 2, ExpBits(w) + 1))
        fr == SubSeq(s, ExpBits(w) + 2, 8 * w)
        neg == s[1] = 1
        lead == Strip(fr)
    IN IF ex = 2 ^ ExpBits(w) - 1 THEN Special(neg, IF lead = << >> THEN "inf" ELSE "nan")
       ELSE IF ex > 0 THEN [neg |-> neg, kind |-> "fin", e |-> ex - Bias(w), bits |-> StripEnd(<<1>> \o fr)]
       ELSE IF lead = << >> THEN Special(neg, "zero")
       ELSE [neg |-> neg, kind |-> "fin", e |-> 1 - Bias(w) - (Len(fr) - Len(lead)) - 1, bits |-> StripEnd(lead)]
=============================================================================
