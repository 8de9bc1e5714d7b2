------------------------------- MODULE Prims -------------------------------
(***************************************************************************)
(* The stream primitives: what each writes for a value, what each reads.   *)
(***************************************************************************)
EXTENDS Numbers, FiniteSets
\* name in write_<name>/read_<name>, kind, octets
Table == {
    <<"boolean", "bool", 1>>, <<"byte", "s", 1>>, <<"unsigned_byte", "u", 1>>, <<"char", "ch", 2>>, <<"char8", "ch", 1>>,
    <<"double", "f", 8>>, <<"float", "f", 4>>, <<"short", "s", 2>>, <<"unsigned_short", "u", 2>>, <<"long", "s", 8>>,
    <<"int", "s", 4>>, <<"unsigned_int", "u", 4>>, <<"utf", "utf", 2>>, <<"bytes", "bytes", 0>>,
    <<"float32", "f", 4>>, <<"float64", "f", 8>>, <<"int8", "s", 1>>, <<"int16", "s", 2>>, <<"int32", "s", 4>>,
    <<"int64", "s", 8>>, <<"uint8", "u", 1>>, <<"uint16", "u", 2>>, <<"uint32", "u", 4>>, <<"uint64", "u", 8>> }
Names == { t[1] : t \in Table }
Row(n) == CHOOSE t \in Table : t[1] = n
Kind(n) == Row(n)[2]
Width(n) == Row(n)[3]
\* what kind of value a primitive takes: "int", "float", "bool", "octets"; a character is its code
Takes(n) == CASE Kind(n) \in {"s", "u", "ch"} -> "int" [] Kind(n) = "f" -> "float" [] Kind(n) = "bool" -> "bool" [] OTHER -> "octets"
\* v: [t, x]: t the kind of the value; "other" is a value of no such kind
Accepts(n, v) ==
    /\ v.t = Takes(n)
    /\ CASE Kind(n) \in {"u", "ch"} -> FitsU(v.x, Width(n))
         [] Kind(n) = "s" -> FitsS(v.x, Width(n))
         [] Kind(n) = "f" -> FitsF(v.x, Width(n))
         [] Kind(n) = "utf" -> Len(v.x) < 65536
         [] OTHER -> TRUE
Writes(n, v) ==
    CASE Kind(n) \in {"u", "ch"} -> EncU(v.x, Width(n))
      [] Kind(n) = "s" -> EncS(v.x, Width(n))
      [] Kind(n) = "f" -> EncF(v.x, Width(n))
      [] Kind(n) = "bool" -> <<v.x>>
      [] Kind(n) = "utf" -> <<Len(v.x) \div 256, Len(v.x) % 256>> \o v.x
      [] Kind(n) = "bytes" -> v.x
Val(t, x) == [t |-> t, x |-> x]
\* octets the primitive n takes from the octets s (k: the number asked for, by read_bytes); -1: not all there
Needs(n, s, k) ==
    CASE Kind(n) = "bytes" -> IF Len(s) >= k THEN k ELSE -1
      [] Kind(n) = "utf" -> IF Len(s) < 2 THEN -1
                            ELSE LET m == s[1] * 256 + s[2] IN IF Len(s) >= 2 + m THEN 2 + m ELSE -1
      [] OTHER -> IF Len(s) >= Width(n) THEN Width(n) ELSE -1
Reads(n, s, k) ==
    LET b == SubSeq(s, 1, Needs(n, s, k)) IN
    CASE Kind(n) \in {"u", "ch"} -> Val("int", DecU(b))
      [] Kind(n) = "s" -> Val("int", DecS(b))
      [] Kind(n) = "f" -> Val("float", DecF(b))
      [] Kind(n) = "bool" -> Val("bool", IF b[1] = 0 THEN 0 ELSE 1)
      [] Kind(n) = "utf" -> Val("octets", SubSeq(b, 3, Len(b)))
      [] Kind(n) = "bytes" -> Val("octets", b)
\* a 32-bit float comes back rounded
Rounded(n, v) == IF Kind(n) = "f" /\ v.x.kind # "nan" THEN Val("float", DecF(EncF(v.x, Width(n)))) ELSE v
=============================================================================
