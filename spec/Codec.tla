------------------------------ MODULE Codec ------------------------------
(***************************************************************************)
(* What an encoding is.  Enc/Dec interpret the layouts of Layouts.tla over *)
(* octet sequences.  A decoding is [ok, v, p]: the tuple read and the      *)
(* position of the first octet not consumed; ok = FALSE is rejection.      *)
(***************************************************************************)
EXTENDS Layouts, Integers, Sequences, SequencesExt, FiniteSets, TLC

Zeros(n) == [i \in 1..n |-> 0]
Sum(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
Min2(x, y) == IF x < y THEN x ELSE y

\* A natural number in w octets (TLC integers are 32-bit: w = 4 carries 31 bits).
NatBytes(x, w) ==
    IF w = 4 THEN <<x \div 16777216, (x \div 65536) % 256, (x \div 256) % 256, x % 256>>
    ELSE IF w = 2 THEN <<(x \div 256) % 256, x % 256>>
    ELSE <<x % 256>>
Huge == 2000000000      \* stands for any count above 2^31 - 1
BytesNat(b) ==
    IF Len(b) = 4 /\ b[1] > 119 THEN Huge
    ELSE FoldLeft(LAMBDA acc, x : acc * 256 + x, 0, b)
FitsIn(x, w) == w = 4 \/ (w = 2 /\ x < 65536) \/ (w = 1 /\ x < 256)

PowTwo(n) == 2 ^ n
\* Bit fields of widths ws holding vs, first field in the most significant bits.
RECURSIVE BitsNat(_, _)
BitsNat(ws, vs) ==
    IF ws = << >> THEN 0
    ELSE (vs[1] % PowTwo(ws[1])) * PowTwo(Sum(Tail(ws))) + BitsNat(Tail(ws), Tail(vs))
RECURSIVE NatBits(_, _)
NatBits(ws, x) ==
    IF ws = << >> THEN << >>
    ELSE <<(x \div PowTwo(Sum(Tail(ws)))) % PowTwo(ws[1])>> \o NatBits(Tail(ws), x % PowTwo(Sum(Tail(ws))))

\* 32-bit length n of a datum: octets of value, and of value plus padding
DatumOctets(n)  == (n + 7) \div 8
DatumPadded(n)  == ((n + 63) \div 64) * 8

IndexOf(items, n) == CHOOSE i \in DOMAIN items : items[i].n = n
ListIndex(items, l) == CHOOSE i \in DOMAIN items :
    items[i].k \in {"list", "lu", "sv", "mod", "ant"} /\ items[i].n = l

-----------------------------------------------------------------------------
(* Encoding *)
RECURSIVE Enc(_, _), EncItem(_, _, _), EncSV(_), EncPart(_)
EncItems(items, v) == FlattenSeq([i \in 1..Len(items) |-> EncItem(items, v, i)])
Enc(c, v) == EncItems(Layout[c].f, v)
EncPart(p) == IF p = << >> THEN << >> ELSE Enc(p[1], p[2])
\* a standard variable record: <<class or "Unknown", type octets, tuple or octets>>
EncSV(r) == LET body == IF r[1] = "Unknown" THEN r[3] ELSE Enc(r[1], r[3])
            IN r[2] \o NatBytes(Len(body) + 6, 2) \o body
EncItem(items, v, i) ==
    LET it == items[i] IN
    CASE it.k \in {"u", "i", "f", "a", "rest"} -> v[i]
      [] it.k = "rec"   -> Enc(it.t, v[i])
      [] it.k = "cnt"   -> NatBytes(Len(v[ListIndex(items, it.l)]) * it.m + it.a, it.w)
      [] it.k = "plen"  -> NatBytes(Len(EncPart(v[ListIndex(items, it.l)])), it.w)
      [] it.k = "list"  -> FlattenSeq([j \in 1..Len(v[i]) |-> Enc(it.t, v[i][j])])
      [] it.k = "lu"    -> FlattenSeq(v[i])
      [] it.k = "sv"    -> FlattenSeq([j \in 1..Len(v[i]) |-> EncSV(v[i][j])])
      [] it.k \in {"mod", "ant"} -> EncPart(v[i])
      [] it.k = "vdat"  -> v[i][1] \o v[i][2] \o
                           Zeros(DatumPadded(BytesNat(v[i][1])) - DatumOctets(BytesNat(v[i][1])))
      [] it.k = "bits"  -> NatBytes(BitsNat(it.w, v[i]), 2)
      [] it.k = "flag"  -> <<v[i][1] % 2>>
      [] it.k = "z"     -> Zeros(it.w)
      [] it.k = "align" -> Zeros((- (it.m + Len(EncItems(SubSeq(items, 1, i - 1), v)))) % 8)

\* What serialize() writes for an object of class c
EncTop(c, v) == IF Layout[c].k = "sv" THEN EncSV(<<c, NatBytes(Layout[c].ty, 4), v>>) ELSE Enc(c, v)

\* Every count and length field of the object (at any depth) is in range
RECURSIVE Fits(_, _)
FitsPart(p) == p = << >> \/ Fits(p[1], p[2])
FitsSV(r) == IF r[1] = "Unknown" THEN FitsIn(Len(r[3]) + 6, 2)
             ELSE FitsIn(Len(Enc(r[1], r[3])) + 6, 2) /\ Fits(r[1], r[3])
Fits(c, v) ==
    LET items == Layout[c].f IN
    \A i \in DOMAIN items :
      LET it == items[i] IN
      CASE it.k = "cnt"  -> FitsIn(Len(v[ListIndex(items, it.l)]) * it.m + it.a, it.w)
        [] it.k = "plen" -> FitsIn(Len(EncPart(v[ListIndex(items, it.l)])), it.w)
        [] it.k = "rec"  -> Fits(it.t, v[i])
        [] it.k = "list" -> \A j \in DOMAIN v[i] : Fits(it.t, v[i][j])
        [] it.k = "sv"   -> \A j \in DOMAIN v[i] : FitsSV(v[i][j])
        [] it.k \in {"mod", "ant"} -> FitsPart(v[i])
        [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Decoding *)
Fail == [ok |-> FALSE, v |-> << >>, p |-> 0]
Good(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
\* n octets of b from position p, if they are there
Take(b, p, n) == IF n >= 0 /\ n <= Len(b) - p + 1 THEN Good(SubSeq(b, p, p + n - 1), p + n) ELSE Fail

\* 7.7.2.2: which modulation parameters record a Transmitter PDU carries
ModClass(system, major, len) ==
    LET c == CASE BytesNat(system) = 1 -> IF BytesNat(major) = 0 THEN "SimpleIntercomRadio" ELSE "GenericRadio"
               [] BytesNat(system) \in {2, 3, 4} -> "BasicHaveQuickMP"
               [] BytesNat(system) = 6 -> "CCTTSincgarsMP"
               [] OTHER -> "UnknownRadio"
        size == CASE c \in {"BasicHaveQuickMP", "CCTTSincgarsMP"} -> 16 [] OTHER -> 0
    IN IF size = len THEN c ELSE "UnknownRadio"
AntClass(type, len) ==
    IF BytesNat(type) = 1 /\ len = 40 THEN "BeamAntennaPattern" ELSE "UnknownAntennaPattern"

RECURSIVE Dec(_, _, _, _), DecItems(_, _, _, _, _, _, _), DecItem(_, _, _, _, _, _),
          DecList(_, _, _, _, _), DecSVs(_, _, _, _, _), DecLU(_, _, _, _, _)
\* Decode an object of class c from b at p, using octets up to position lim only
Dec(c, b, p, lim) == DecItems(Layout[c].f, 1, b, p, lim, << >>, [l \in {} |-> 0])
DecItems(items, i, b, p, lim, acc, cn) ==
    IF i > Len(items) THEN Good(acc, p)
    ELSE LET it == items[i]
             r == DecItem(items, i, b, p, lim, <<acc, cn>>)
         IN IF ~r.ok THEN Fail
            ELSE IF it.k \in {"cnt", "plen"}
                 THEN DecItems(items, i + 1, b, r.p, lim, Append(acc, << >>), (it.l :> BytesNat(r.v)) @@ cn)
                 ELSE DecItems(items, i + 1, b, r.p, lim, Append(acc, r.v), cn)
TakeL(b, p, n, lim) == IF p + n - 1 > lim THEN Fail ELSE Take(b, p, n)
\* number of elements a count octet group stands for
CountOf(items, l, raw) ==
    LET it == items[CHOOSE j \in DOMAIN items : items[j].k = "cnt" /\ items[j].l = l]
    IN IF raw < it.a THEN 0 ELSE (raw - it.a) \div it.m
DecItem(items, i, b, p, lim, st) ==
    LET it == items[i] acc == st[1] cn == st[2] IN
    CASE it.k \in {"u", "i", "f", "a"} -> TakeL(b, p, it.w, lim)
      [] it.k \in {"cnt", "plen"} -> TakeL(b, p, it.w, lim)
      [] it.k = "rec"   -> Dec(it.t, b, p, lim)
      [] it.k = "list"  -> IF it.t \in Opaque THEN (IF cn[it.n] = 0 THEN Good(<< >>, p) ELSE Fail)
                           ELSE DecList(it.t, b, p, lim, <<CountOf(items, it.n, cn[it.n]), << >> >>)
      [] it.k = "lu"    -> DecLU(it.w, b, p, lim, <<CountOf(items, it.n, cn[it.n]), << >> >>)
      [] it.k = "sv"    -> DecSVs(it.t, b, p, lim, <<CountOf(items, it.n, cn[it.n]), << >> >>)
      [] it.k = "mod"   ->
            LET mt == acc[IndexOf(items, "modulationType")]
                len == cn[it.n]
                c == ModClass(mt[4], mt[2], len)
                r == Dec(c, b, p, Min2(lim, p + len - 1))
            IN IF len = 0 THEN Good(<< >>, p)
               ELSE IF p + len - 1 > lim \/ ~r.ok THEN Fail ELSE Good(<<c, r.v>>, r.p)
      [] it.k = "ant"   ->
            LET ty == acc[IndexOf(items, "antennaPatternType")]
                len == cn[it.n]
                c == AntClass(ty, len)
                r == Dec(c, b, p, Min2(lim, p + len - 1))
            IN IF len = 0 THEN Good(<< >>, p)
               ELSE IF p + len - 1 > lim \/ ~r.ok THEN Fail ELSE Good(<<c, r.v>>, r.p)
      [] it.k = "vdat"  ->
            LET h == TakeL(b, p, 4, lim)
                n == BytesNat(h.v)
                d == TakeL(b, h.p, DatumOctets(n), lim)
                z == TakeL(b, d.p, DatumPadded(n) - DatumOctets(n), lim)
            IN IF ~h.ok \/ n = Huge THEN Fail
               ELSE IF ~d.ok THEN Fail
               ELSE IF ~z.ok THEN Fail ELSE Good(<<h.v, d.v>>, z.p)
      [] it.k = "bits"  -> LET h == TakeL(b, p, 2, lim)
                           IN IF ~h.ok THEN Fail ELSE Good(NatBits(it.w, BytesNat(h.v)), h.p)
      [] it.k = "flag"  -> LET h == TakeL(b, p, 1, lim) IN IF ~h.ok THEN Fail ELSE Good(<<h.v[1] % 2>>, h.p)
      [] it.k = "z"     -> LET h == TakeL(b, p, it.w, lim) IN IF ~h.ok THEN Fail ELSE Good(<< >>, h.p)
      [] it.k = "rest"  -> IF lim > Len(b) THEN Fail ELSE Good(SubSeq(b, p, lim), lim + 1)
      [] it.k = "align" -> \* the items before it start m octets after an 8-octet boundary
            LET used == it.m + Len(EncItems(SubSeq(items, 1, i - 1), acc))
                h == TakeL(b, p, (- used) % 8, lim)
            IN IF ~h.ok THEN Fail ELSE Good(<< >>, h.p)
DecList(t, b, p, lim, st) ==
    IF st[1] = 0 THEN Good(st[2], p)
    ELSE LET r == Dec(t, b, p, lim)
         IN IF ~r.ok THEN Fail ELSE DecList(t, b, r.p, lim, <<st[1] - 1, Append(st[2], r.v)>>)
DecLU(w, b, p, lim, st) ==
    LET n == st[1] IN
    IF n > 1000000 \/ p + n * w - 1 > lim THEN Fail
    ELSE Good([j \in 1..n |-> SubSeq(b, p + (j - 1) * w, p + j * w - 1)], p + n * w)
\* 6.2.83: type, length, body of the declared length
DecSVs(fam, b, p, lim, st) ==
    IF st[1] = 0 THEN Good(st[2], p)
    ELSE LET h == TakeL(b, p, 6, lim) IN
         IF ~h.ok THEN Fail
         ELSE LET ty == SubSeq(h.v, 1, 4)
                  len == BytesNat(SubSeq(h.v, 5, 6))
                  known == SVByType(BytesNat(ty))
                  end == p + len - 1
              IN IF len < 8 \/ len % 8 # 0 \/ end > lim THEN Fail
                 ELSE IF known # {} /\ known \cap SVClasses(fam) = {} THEN Fail
                 ELSE IF known # {}
                      THEN LET c == CHOOSE x \in known : TRUE
                               r == Dec(c, b, h.p, end)
                           IN IF ~r.ok THEN Fail
                              ELSE DecSVs(fam, b, end + 1, lim, <<st[1] - 1, Append(st[2], <<c, ty, r.v>>)>>)
                      ELSE DecSVs(fam, b, end + 1, lim,
                                  <<st[1] - 1, Append(st[2], <<"Unknown", ty, SubSeq(b, h.p, end)>>)>>)

\* Decode one object of class c from the start of b; octets after it are not looked at
DecTop(c, b) ==
    IF Layout[c].k = "sv"
    THEN LET r == DecSVs("any", b, 1, Len(b), <<1, << >> >>)
         IN IF ~r.ok THEN Fail ELSE IF r.v[1][1] # c THEN Fail ELSE Good(r.v[1][3], r.p)
    ELSE Dec(c, b, 1, Len(b))
\* b is exactly the encoding some object of class c has
Canonical(c, b) == LET r == DecTop(c, b) IN r.ok /\ r.p = Len(b) + 1 /\ EncTop(c, r.v) = b

-----------------------------------------------------------------------------
(* An encoding as the sequence of primitive writes that produce it: each   *)
(* has the path of its item in the object and its octets; kinds "c" (count,  *)
(* length) and "z" (padding) are derived, the object holds no value there. *)
RECURSIVE Prims(_, _, _)
Op(k, path, b) == [k |-> k, path |-> path, b |-> b]
PrimSV(r, path) ==
    <<Op("t", Append(path, 2), r[2]), Op("c", Append(path, 3), SubSeq(EncSV(r), 5, 6))>> \o
    (IF r[1] = "Unknown" THEN <<Op("rest", Append(path, 3), r[3])>> ELSE Prims(r[1], r[3], Append(path, 3)))
PrimItem(items, v, i, path) ==
    LET it == items[i] pi == Append(path, i) IN
    CASE it.k \in {"u", "i", "f", "a", "bits", "rest", "flag"} -> <<Op(it.k, pi, EncItem(items, v, i))>>
      [] it.k \in {"cnt", "plen"} -> <<Op("c", pi, EncItem(items, v, i))>>
      [] it.k \in {"z", "align"} -> <<Op("z", pi, EncItem(items, v, i))>>
      [] it.k = "rec"  -> Prims(it.t, v[i], pi)
      [] it.k = "list" -> FlattenSeq([j \in 1..Len(v[i]) |-> Prims(it.t, v[i][j], Append(pi, j))])
      [] it.k = "lu"   -> [j \in 1..Len(v[i]) |-> Op("u", Append(pi, j), v[i][j])]
      [] it.k = "sv"   -> FlattenSeq([j \in 1..Len(v[i]) |-> PrimSV(v[i][j], Append(pi, j))])
      [] it.k \in {"mod", "ant"} -> IF v[i] = << >> THEN << >> ELSE Prims(v[i][1], v[i][2], Append(pi, 2))
      [] it.k = "vdat" -> LET e == EncItem(items, v, i) n == Len(v[i][2])
                          IN <<Op("vlen", Append(pi, 1), v[i][1]), Op("vdat", Append(pi, 2), v[i][2]),
                               Op("z", pi, SubSeq(e, 5 + n, Len(e)))>>
Prims(c, v, path) ==
    LET items == Layout[c].f IN FlattenSeq([i \in 1..Len(items) |-> PrimItem(items, v, i, path)])
PrimsTop(c, v) ==
    (IF Layout[c].k = "sv"
     THEN LET e == EncTop(c, v) IN <<Op("t", << >>, SubSeq(e, 1, 4)), Op("c", << >>, SubSeq(e, 5, 6))>>
     ELSE << >>) \o Prims(c, v, << >>)
=============================================================================
