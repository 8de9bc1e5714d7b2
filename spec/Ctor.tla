------------------------------- MODULE Ctor -------------------------------
(***************************************************************************)
(* Construction.  A constructor is given some of its arguments: those are  *)
(* what the object holds, everything else is the default.                  *)
(***************************************************************************)
EXTENDS Gen, Json
CONSTANTS Kits,         \* which argument values
          Which, Pairs, EmitOn
VARIABLES phase, cls, full, dflt, given, made, out
vars == <<phase, cls, full, dflt, given, made, out>>
Kit == << <<2, "ctr">>, <<0, "zero">>, <<1, "ff">>, <<3, "mix">>, <<4, "7f">>, <<2, "zero">>, <<0, "80">> >>
Range2(q) == { q[i] : i \in DOMAIN q }
Params(c) == Range2(CtorArgs[c]) \ { q[2] : q \in { z \in CtorDerived : z[1] = c } }
AttrOf(c, p) == IF \E q \in CtorAlias : q[1] = c /\ q[2] = p THEN (CHOOSE q \in CtorAlias : q[1] = c /\ q[2] = p)[3] ELSE p
\* is the value of attribute a given?
Given(c, g, a) == \E p \in g : AttrOf(c, p) = a
Single == {"u", "i", "f", "a", "rec", "list", "lu", "sv", "mod", "ant", "rest", "flag"}
\* the object a constructor makes of the arguments g
Construct(c, g, v, w) == [i \in DOMAIN Layout[c].f |-> LET it == Layout[c].f[i] IN
    CASE it.k \in Single -> IF Given(c, g, it.n) THEN v[i] ELSE w[i]
      [] it.k = "vdat"   -> IF Given(c, g, it.n) THEN v[i] ELSE w[i]
      [] it.k = "bits"   -> [j \in DOMAIN it.w |-> IF Given(c, g, it.t[j]) THEN v[i][j] ELSE w[i][j]]
      [] OTHER -> w[i]]
\* a datum's value and its bit length are given together
Together(c, g) == \A i \in DOMAIN Layout[c].f : LET it == Layout[c].f[i] IN
    it.k = "vdat" => (Given(c, g, it.n) = Given(c, g, it.l))
FirstOnes(c) == { { CtorArgs[c][i] : i \in 1..n } \cap Params(c) : n \in 0..Len(CtorArgs[c]) }
Evens(c) == { CtorArgs[c][i] : i \in { j \in DOMAIN CtorArgs[c] : j % 2 = 0 } } \cap Params(c)
Selections(c) == LET P == Params(c) IN { g \in
    { {p} : p \in P } \cup { P \ {p} : p \in P } \cup FirstOnes(c) \cup {P, Evens(c), P \ Evens(c)}
    \cup (IF Pairs THEN { {p, q} : p \in P, q \in P } ELSE {}) : Together(c, g) }
Init == phase = "start" /\ cls = "" /\ full = << >> /\ dflt = << >> /\ given = {} /\ made = << >> /\ out = << >>
Pick == /\ phase = "start" /\ phase' = "picked"
        /\ cls' \in { c \in DOMAIN CtorArgs : Layout[c].k # "abs" /\ c \notin NoDefault /\ (Which = {} \/ c \in Which) }
        /\ \E q \in Kits : full' = GenTop(cls', Kit[q][1], Kit[q][2])
        /\ dflt' = Default(cls') /\ UNCHANGED <<given, made, out>>
Call == /\ phase = "picked" /\ phase' = "made"
        /\ given' \in Selections(cls)
        /\ made' = Construct(cls, given', full, dflt)
        /\ out' = EncTop(cls, made') /\ UNCHANGED <<cls, full, dflt>>
Next == Pick \/ Call
Spec == Init /\ [][Next]_vars
\* C16
Everything == (phase = "made" /\ given = Params(cls)) =>
    \A i \in DOMAIN made : Layout[cls].f[i].k \in Single /\ (\E p \in Params(cls) : AttrOf(cls, p) = Layout[cls].f[i].n) => made[i] = full[i]
Nothing == (phase = "made" /\ given = {}) => made = dflt /\ out = EncTop(cls, dflt)
\* what one more argument changes is what it is about
Representable == phase = "made" => Fits(cls, made)
OwnType == (phase = "made" /\ Layout[cls].k = "pdu") =>
    /\ out[3] = Layout[cls].ty /\ out[1] = 7
    /\ given = {} => LET d == DecTop(cls, out) IN d.ok /\ d.v = dflt
\* every attribute a constructor names is one the layout carries
ASSUME \A c \in DOMAIN CtorArgs : Layout[c].k # "abs" => \A p \in Params(c) : \E i \in DOMAIN Layout[c].f : LET it == Layout[c].f[i] IN
    (it.k = "bits" /\ \E j \in DOMAIN it.t : it.t[j] = AttrOf(c, p)) \/ (it.k = "vdat" /\ it.l = AttrOf(c, p)) \/ it.n = AttrOf(c, p)
Emit == (EmitOn /\ phase = "made") =>
    PrintT(ToJson([c |-> cls, given |-> SelectSeq(CtorArgs[cls], LAMBDA p : p \in given), full |-> full, v |-> made, b |-> out]))
=============================================================================
