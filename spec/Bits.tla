------------------------------- MODULE Bits -------------------------------
(***************************************************************************)
(* Bit field structures: a list of field widths, a value for each field    *)
(* (its bits, most significant first), the octets they pack into.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS P8, P16, P32,  \* at most so many fields in definitions totalling 8, 16, 32 bits
          Depth, EmitOn,
          Wild          \* simulation: definitions and values at random
VARIABLES ws, vals, hist
vars == <<ws, vals, hist>>

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
\* A definition is a list of fields <<kind, width>>
Kinds == {"INTEGER", "CHAR", "integer", ""}
Valid(d) == /\ \A i \in DOMAIN d : d[i][1] = "INTEGER" /\ d[i][2] >= 1 /\ d[i][2] <= 32
            /\ LET t == Sum([i \in DOMAIN d |-> d[i][2]]) IN t > 0 /\ t <= 32 /\ t % 8 = 0
\* 24 bits: neither promised nor refused
Unspecified(d) == Valid(d) /\ Sum([i \in DOMAIN d |-> d[i][2]]) = 24

Oct(s) == [i \in 1..(Len(s) \div 8) |-> FoldLeft(LAMBDA x, y : x * 2 + y, 0, SubSeq(s, 8 * i - 7, 8 * i))]
Wire(v) == Oct(FlattenSeq(v))
OctBits(x) == [i \in 1..8 |-> (x \div (2 ^ (8 - i))) % 2]
From(w, i) == Sum(SubSeq(w, 1, i - 1))
Parse(w, b) == LET s == FlattenSeq([i \in DOMAIN b |-> OctBits(b[i])])
               IN [i \in DOMAIN w |-> SubSeq(s, From(w, i) + 1, From(w, i) + w[i])]

RECURSIVE Compositions(_, _)
Compositions(t, n) == IF t = 0 THEN { << >> } ELSE IF n = 0 THEN {}
                      ELSE UNION { { <<k>> \o c : c \in Compositions(t - k, n - 1) } : k \in 1..t }
Definitions == Compositions(8, P8) \cup Compositions(16, P16) \cup Compositions(32, P32)
\* The published bits of the DIS records made of bit fields
Published == [SpreadSpectrum |-> <<1, 1, 1, 13>>, NetId |-> <<10, 2, 2, 2>>, DEFireFlags |-> <<1, 1, 14>>]

Const(w, x) == [i \in 1..w |-> x]
ValuesOf(w) == { Const(w, 0), Const(w, 1), [i \in 1..w |-> IF i = 1 THEN 1 ELSE 0], [i \in 1..w |-> IF i = w THEN 1 ELSE 0] }
Zeros(w) == [i \in DOMAIN w |-> Const(w[i], 0)]
RandomBits(w) == [i \in 1..w |-> RandomElement({0, 1})]
RECURSIVE RandomWidths(_)
RandomWidths(t) == IF t = 0 THEN << >> ELSE LET k == RandomElement(1..t) IN <<IF k > 9 /\ t < 32 THEN 1 ELSE k>> \o RandomWidths(t - (IF k > 9 /\ t < 32 THEN 1 ELSE k))

Log(op, i) == hist' = IF EmitOn THEN Append(hist, [op |-> op, i |-> i, vals |-> vals', b |-> Wire(vals')])
                                 ELSE << [op |-> op, i |-> i] >>
Init == /\ IF Wild THEN ws = << >> ELSE ws \in Definitions
        /\ vals = Zeros(ws) /\ hist = << >>
\* the first step of a simulated history chooses the structure
Define == /\ ws = << >> /\ \E t \in {RandomElement({8, 16, 32, 32})} : ws' = RandomWidths(t)
          /\ vals' = Zeros(ws') /\ Log("define", 0)
Set(i, v) == ws' = ws /\ vals' = [vals EXCEPT ![i] = v] /\ Log("set", i)
\* the structure is parsed from octets
Load(b) == ws' = ws /\ vals' = Parse(ws, b) /\ Log("parse", 0)
Stop == Len(hist) = Depth /\ EmitOn /\ UNCHANGED <<ws, vals>> /\ Log("stop", 0)
RandomOctets(n) == [i \in 1..n |-> RandomElement(0..255)]
Next == IF Wild
        THEN \/ Define
             \/ ws # << >> /\ Len(hist) < Depth /\ \E i \in {RandomElement(DOMAIN ws)} : Set(i, RandomBits(ws[i]))
             \/ ws # << >> /\ Len(hist) < Depth /\ Load(RandomOctets(Sum(ws) \div 8))
             \/ Stop
        ELSE \E i \in DOMAIN ws : \E v \in ValuesOf(ws[i]) : Set(i, v)
Spec == Init /\ [][Next]_vars
View == <<ws, vals>>

\* C15
Width == Len(Wire(vals)) * 8 = Sum(ws)
RoundTrip == Parse(ws, Wire(vals)) = vals
MSBFirst == ws # << >> => (Wire(vals)[1] >= 128) = (vals[1][1] = 1)
Independent == [][\A i \in DOMAIN ws : (ws' = ws /\ hist' # << >> /\ hist'[Len(hist')].op = "set" /\ hist'[Len(hist')].i # i) => vals'[i] = vals[i]]_vars
ASSUME \A r \in DOMAIN Published : Valid([i \in DOMAIN Published[r] |-> <<"INTEGER", Published[r][i]>>])

\* every state: a structure and its octets
Emit == ~Wild /\ EmitOn => PrintT(ToJson([ws |-> ws, vals |-> vals, b |-> Wire(vals)]))
EmitHist == (Wild /\ EmitOn /\ Len(hist) > Depth) => PrintT(ToJson([ws |-> ws, hist |-> hist]))
\* definitions, right and wrong
Widths == {-1, 0, 1, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 64}
Defs == { << >> } \cup { << <<k, w>> >> : k \in Kinds, w \in Widths }
        \cup { << <<"INTEGER", v>>, <<k, w>> >> : k \in {"INTEGER", "CHAR"}, v \in Widths, w \in Widths }
        \cup { << <<k, 4>>, <<"INTEGER", v>>, <<"INTEGER", w>> >> : k \in {"INTEGER", "CHAR"}, v \in Widths, w \in Widths }
        \cup { [i \in 1..n |-> <<"INTEGER", w>>] : n \in 1..40, w \in {1, 2, 3, 4, 8} }
EmitDefs == EmitOn /\ ~Wild => \A d \in Defs : PrintT(ToJson([def |-> d, ok |-> Valid(d), un |-> Unspecified(d)]))
ASSUME EmitDefs
ASSUME EmitOn => PrintT(ToJson([published |-> Published]))
=============================================================================
