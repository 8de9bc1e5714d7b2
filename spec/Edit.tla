------------------------------- MODULE Edit -------------------------------
(***************************************************************************)
(* An object under edit.  Fields are set, nested records replaced, list    *)
(* elements inserted, replaced, moved and removed, variable parts set, in  *)
(* any order and at any depth; now and then the object is parsed from its  *)
(* own octets.  Whatever was done, the octets are those of its contents.   *)
(***************************************************************************)
EXTENDS Gen, Json
CONSTANTS Which,        \* classes edited ({}: all)
          Kinds,        \* kinds of items edited ({}: all)
          Depth
VARIABLES cls, obj, wire, hist
vars == <<cls, obj, wire, hist>>

\* Every place of an object v of class c that can be edited: <<kind, path, item>>
RECURSIVE Sites(_, _, _)
ListKinds == {"list", "lu", "sv"}
Leaves == {"u", "i", "f", "a", "bits", "flag", "rest", "vdat", "mod", "ant"}
Sites(c, v, path) == UNION { LET it == Layout[c].f[i] pi == Append(path, i) IN
    (IF it.k \in Leaves \cup {"rec"} \/ (it.k \in ListKinds /\ it.t \notin Opaque) THEN { <<it.k, pi, it>> } ELSE {}) \cup
    (CASE it.k = "rec"  -> Sites(it.t, v[i], pi)
       [] it.k = "list" -> UNION { Sites(it.t, v[i][j], Append(pi, j)) : j \in DOMAIN v[i] }
       [] it.k = "sv"   -> UNION { IF v[i][j][1] = "Unknown" THEN {} ELSE Sites(v[i][j][1], v[i][j][3], pi \o <<j, 3>>) : j \in DOMAIN v[i] }
       [] it.k \in {"mod", "ant"} -> IF v[i] = << >> THEN {} ELSE Sites(v[i][1], v[i][2], Append(pi, 2))
       [] OTHER -> {}) : i \in DOMAIN Layout[c].f }
RECURSIVE SetAt(_, _, _), Get(_, _)
SetAt(v, path, x) == IF Len(path) = 1 THEN [v EXCEPT ![path[1]] = x]
                     ELSE [v EXCEPT ![path[1]] = SetAt(v[path[1]], Tail(path), x)]
Get(v, path) == IF path = << >> THEN v ELSE Get(v[path[1]], Tail(path))

\* A value for an item: octets of a pattern from k on
Value(it, s, pat, k) ==
    CASE it.k = "mod" -> IF s = 0 THEN << >> ELSE PartOf(<<"BasicHaveQuickMP", "CCTTSincgarsMP", "UnknownRadio", "UnknownRadio">>[s], s, pat, k)
      [] it.k = "ant" -> IF s = 0 THEN << >> ELSE PartOf(<<"BeamAntennaPattern", "UnknownAntennaPattern", "UnknownAntennaPattern", "BeamAntennaPattern">>[s], s, pat, k)
      [] OTHER -> GenItem(<<it>>, 1, s, pat, k)[1]
\* one element of a list
Element(it, s, pat, k) ==
    CASE it.k = "list" -> GenC(it.t, s, pat, k)[1]
      [] it.k = "lu" -> [i \in 1..it.w |-> Byte(pat, k + i)]
      [] it.k = "sv" -> GenSVs(it.t, 1, s, pat, k, << >>)[1][1]
Without(s, i) == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]
WithAt(s, i, x) == [j \in 1..(Len(s) + 1) |-> IF j < i THEN s[j] ELSE IF j = i THEN x ELSE s[j - 1]]

Init == cls = "" /\ obj = << >> /\ wire = << >> /\ hist = << >>
Pick1(S) == { RandomElement(S) }
Log(op, path, i, x) == hist' = Append(hist, [op |-> op, path |-> path, i |-> i, x |-> x, b |-> wire'])
New == /\ cls = ""
       /\ cls' \in Pick1(IF Which = {} THEN Classes ELSE Which)
       /\ \E s \in Pick1(Shapes) : \E p \in Pick1({"ctr", "mix", "zero", "ff"}) : obj' = GenTop(cls', s, p)
       /\ wire' = EncTop(cls', obj')
       /\ hist' = << [op |-> "new", path |-> << >>, i |-> 0, x |-> obj', b |-> wire'] >>
Change(new) == cls' = cls /\ obj' = new /\ wire' = EncTop(cls, new)
Chosen(S) == IF Kinds = {} THEN S ELSE LET T == { x \in S : x[1] \in Kinds } IN IF T = {} THEN S ELSE T
Edit == \E at \in Pick1(Chosen(Sites(cls, obj, << >>))) : \E s \in Pick1(Shapes) : \E p \in Pick1(Patterns) : \E k \in Pick1(0..200) :
    LET it == at[3] path == at[2] old == Get(obj, path) IN
    IF at[1] \in ListKinds
    THEN \E op \in Pick1({"insert", "insert", "remove", "replace", "clear", "swap"}) :
         LET n == Len(old) IN
         IF op = "insert" \/ n = 0
         THEN \E i \in Pick1(1..(n + 1)) : LET x == Element(it, s, p, k) IN
                Change(SetAt(obj, path, WithAt(old, i, x))) /\ Log("insert", path, i, x)
         ELSE \E i \in Pick1(1..n) :
              CASE op = "remove"  -> Change(SetAt(obj, path, Without(old, i))) /\ Log("remove", path, i, << >>)
                [] op = "replace" -> LET x == Element(it, s, p, k) IN Change(SetAt(obj, path, [old EXCEPT ![i] = x])) /\ Log("replace", path, i, x)
                [] op = "clear"   -> Change(SetAt(obj, path, << >>)) /\ Log("clear", path, 0, << >>)
                [] op = "swap"    -> Change(SetAt(obj, path, [old EXCEPT ![1] = old[i], ![i] = old[1]])) /\ Log("swap", path, i, << >>)
    ELSE LET x == Value(it, s, p, k) IN Change(SetAt(obj, path, x)) /\ Log("set", path, 0, x)
\* the object is parsed from its own octets
Reload == LET d == DecTop(cls, wire) IN
          /\ Change(d.v) /\ Log("reload", << >>, 0, d.v)
Go == IF RandomElement(1..6) = 1 THEN Reload ELSE Edit
Stop == Len(hist) = Depth /\ UNCHANGED <<cls, obj, wire>> /\ hist' = Append(hist, [op |-> "stop", path |-> << >>, i |-> 0, x |-> << >>, b |-> << >>])
Next == New \/ (cls # "" /\ Sites(cls, obj, << >>) # {} /\ Len(hist) < Depth /\ Go) \/ (cls # "" /\ Stop)
Spec == Init /\ [][Next]_vars

\* C07, C02: the octets decode, completely, and are reproduced
Decodes == cls # "" => LET d == DecTop(cls, wire) IN d.ok /\ d.p = Len(wire) + 1 /\ EncTop(cls, d.v) = wire
Fitting == cls # "" => Fits(cls, obj)
Emit == Len(hist) > Depth => PrintT(ToJson([c |-> cls, hist |-> hist]))
=============================================================================
