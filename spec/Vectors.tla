----------------------------- MODULE Vectors -----------------------------
(***************************************************************************)
(* The codec as a coarse state machine: an object is made, written to a    *)
(* stream, and read back from it; the reader may be handed a cut stream or *)
(* a stream with further octets in it.  The invariants are the codec       *)
(* properties; Emit prints each (object, octets, writes) for replay into   *)
(* the implementation.                                                     *)
(***************************************************************************)
EXTENDS Gen, Json
CONSTANTS Which,      \* classes explored ({}: all)
          Pats,       \* patterns explored ({}: all)
          Longs,      \* lengths of lists and free parts explored ({}: the usual shapes)
          EmitOn, CutMax,
          PokeOn      \* explore changing one field of a written object
Pokes == IF PokeOn THEN Classes ELSE {}
\* the layout tables, for the binding to the implementation
ASSUME EmitOn => PrintT(ToJson([layout |-> Layout, ctor |-> CtorArgs, alias |-> SetToSeq(CtorAlias),
                      derived |-> SetToSeq(CtorDerived), nodefault |-> SetToSeq(NoDefault),
                      standard |-> StandardOctets,
                      dispatch |-> SetToSeq(UNION { {<<t, c>> : c \in Dispatch(t)} : t \in 0..255 })]))
VARIABLES phase, cls, shape, pat, obj, out, prims, got
vars == <<phase, cls, shape, pat, obj, out, prims, got>>
None == [ok |-> FALSE, v |-> << >>, p |-> 0]

Init == phase = "start" /\ cls = "" /\ shape = 0 /\ pat = "" /\ obj = << >> /\ out = << >> /\ prims = << >> /\ got = None
Pick == /\ phase = "start"
        /\ cls' \in (IF Which = {} THEN Classes ELSE Which)
        /\ pat' \in (IF Pats = {} THEN Patterns \cup {"def"} ELSE Pats)
        /\ pat' = "def" => cls' \notin NoDefault
        /\ shape' \in (IF Longs # {} THEN LongShapes(cls', Longs) ELSE IF pat' = "def" THEN {0} ELSE ShapesOf(cls'))
        /\ phase' = "picked" /\ UNCHANGED <<obj, out, prims, got>>
Make == /\ phase = "picked" /\ phase' = "object" /\ obj' = GenTop(cls, shape, pat)
        /\ UNCHANGED <<cls, shape, pat, out, prims, got>>
Write == /\ phase = "object" /\ phase' = "written" /\ out' = EncTop(cls, obj) /\ prims' = PrimsTop(cls, obj)
         /\ UNCHANGED <<cls, shape, pat, obj, got>>
Read == /\ phase = "written" /\ phase' = "read" /\ got' = DecTop(cls, out)
        /\ UNCHANGED <<cls, shape, pat, obj, out, prims>>
\* the stream ends after n octets
ReadCut == /\ phase = "written" /\ Len(out) <= CutMax /\ Layout[cls].k \notin {"mod", "ant"}
           /\ phase' = "cut"
           /\ \E n \in 0..(Len(out) - 1) : got' = DecTop(cls, SubSeq(out, 1, n))
           /\ UNCHANGED <<cls, shape, pat, obj, out, prims>>
\* other octets follow in the stream
ReadMore == /\ phase = "written" /\ Layout[cls].k \notin {"mod", "ant"}
            /\ phase' = "read"
            /\ \E t \in {<<255, 0, 17>>, <<0>>, out} : got' = DecTop(cls, out \o t)
            /\ UNCHANGED <<cls, shape, pat, obj, out, prims>>
\* one field is changed after the octets were written
RECURSIVE SetAt(_, _, _)
SetAt(v, path, x) == IF Len(path) = 1 THEN [v EXCEPT ![path[1]] = x]
                     ELSE [v EXCEPT ![path[1]] = SetAt(v[path[1]], Tail(path), x)]
Pokeable == {"u", "i", "f", "a", "rest"}
Poke == /\ phase = "written" /\ cls \in Pokes /\ pat = "ctr"
        /\ phase' = "poked"
        /\ \E i \in {j \in DOMAIN prims : prims[j].k \in Pokeable} :
             LET x == [j \in DOMAIN prims[i].b |-> (prims[i].b[j] + 85) % 256]
                 at == Sum([j \in 1..(i - 1) |-> Len(prims[j].b)])
             IN /\ obj' = SetAt(obj, prims[i].path, x)
                /\ got' = [ok |-> TRUE, p |-> 0, v |-> SubSeq(out, 1, at) \o x \o SubSeq(out, at + Len(x) + 1, Len(out))]
        /\ UNCHANGED <<cls, shape, pat, out, prims>>
Next == Poke \/ Pick \/ Make \/ Write \/ Read \/ ReadCut \/ ReadMore
Spec == Init /\ [][Next]_vars

Representable == phase = "object" => Fits(cls, obj)
\* C01: without list elements a PDU has the size the standard gives
StandardSize == (phase = "written" /\ shape = 0 /\ cls \in DOMAIN StandardOctets \ Deviates) =>
    Len(out) = StandardOctets[cls]
\* C02, C06
RoundTrip == phase = "read" => got.ok /\ got.v = obj /\ got.p = Len(out) + 1
\* C03
Reencode == phase = "read" => EncTop(cls, got.v) = out
\* C05
Truncated == phase = "cut" => ~got.ok
\* C01: the primitive writes partition the encoding, in order
PrimsAreEnc == phase = "written" =>
    FlattenSeq([i \in 1..Len(prims) |-> prims[i].b]) = out
\* C01: a field is written at one place only, and nothing else depends on it
Locality == phase = "poked" => EncTop(cls, obj) = got.v
Emit == (EmitOn /\ phase = "written") =>
    PrintT(ToJson([c |-> cls, s |-> shape, pat |-> pat, v |-> obj, b |-> out,
                   ops |-> [i \in 1..Len(prims) |-> <<prims[i].k, prims[i].path, Len(prims[i].b)>>]]))
=============================================================================
