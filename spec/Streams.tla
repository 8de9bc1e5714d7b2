------------------------------ MODULE Streams ------------------------------
(***************************************************************************)
(* One stream of octets with a position, written and read through the      *)
(* primitives in any order.                                                *)
(***************************************************************************)
EXTENDS Prims, TLC, Json
CONSTANTS Depth, EmitOn, MaxLen
VARIABLES mem, pos, lost, hist
vars == <<mem, pos, lost, hist>>

IntPool == { IntVal(FALSE, << >>), IntVal(FALSE, <<1>>), IntVal(FALSE, <<127>>), IntVal(FALSE, <<128>>), IntVal(FALSE, <<255>>),
    IntVal(FALSE, <<1, 0>>), IntVal(FALSE, <<127, 255>>), IntVal(FALSE, <<128, 0>>), IntVal(FALSE, <<255, 255>>), IntVal(FALSE, <<1, 0, 0>>),
    IntVal(FALSE, <<18, 52, 86, 120>>), IntVal(FALSE, <<127, 255, 255, 255>>), IntVal(FALSE, <<128, 0, 0, 0>>), IntVal(FALSE, <<255, 255, 255, 255>>),
    IntVal(FALSE, <<1, 0, 0, 0, 0>>), IntVal(FALSE, <<1, 35, 69, 103, 137, 171, 205, 239>>), IntVal(FALSE, <<127, 255, 255, 255, 255, 255, 255, 255>>),
    IntVal(FALSE, <<128, 0, 0, 0, 0, 0, 0, 0>>), IntVal(FALSE, <<255, 255, 255, 255, 255, 255, 255, 255>>), IntVal(FALSE, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>),
    IntVal(TRUE, <<1>>), IntVal(TRUE, <<127>>), IntVal(TRUE, <<128>>), IntVal(TRUE, <<129>>), IntVal(TRUE, <<255>>), IntVal(TRUE, <<1, 0>>),
    IntVal(TRUE, <<128, 0>>), IntVal(TRUE, <<128, 1>>), IntVal(TRUE, <<18, 52, 86, 120>>), IntVal(TRUE, <<128, 0, 0, 0>>), IntVal(TRUE, <<128, 0, 0, 1>>),
    IntVal(TRUE, <<128, 0, 0, 0, 0, 0, 0, 0>>), IntVal(TRUE, <<128, 0, 0, 0, 0, 0, 0, 1>>), IntVal(TRUE, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>) }
Fl(neg, e, bits) == [neg |-> neg, kind |-> "fin", e |-> e, bits |-> bits]
One(n) == [i \in 1..n |-> 1]
FloatPool == { Special(FALSE, "zero"), Special(TRUE, "zero"), Special(FALSE, "inf"), Special(TRUE, "inf"),
    Fl(FALSE, 0, <<1>>), Fl(TRUE, 0, <<1>>), Fl(FALSE, -1, <<1, 1>>), Fl(TRUE, 7, <<1, 0, 1, 1>>), Fl(FALSE, -4, <<1, 1, 0, 0, 1, 1, 0, 0, 1, 1, 0, 0, 1>>),
    Fl(FALSE, 127, One(24)), Fl(FALSE, 127, One(25)), Fl(TRUE, 127, One(24) \o <<0, 1>>), Fl(FALSE, 128, <<1>>), Fl(FALSE, 1023, One(53)), Fl(TRUE, 1023, <<1>>),
    Fl(FALSE, -126, <<1>>), Fl(FALSE, -127, <<1>>), Fl(FALSE, -149, <<1>>), Fl(FALSE, -150, <<1>>), Fl(FALSE, -150, <<1, 0, 0, 1>>), Fl(TRUE, -151, One(10)),
    Fl(FALSE, -1022, <<1>>), Fl(FALSE, -1074, <<1>>), Fl(TRUE, -1030, One(8)), Fl(FALSE, 3, One(25)), Fl(FALSE, 3, One(23) \o <<0, 1>>),
    Fl(FALSE, 3, One(22) \o <<0, 1, 1>>), Fl(TRUE, 20, <<1>> \o Pad0(23) \o <<1, 0, 0, 0, 1>>), Fl(FALSE, -130, One(24)), Fl(FALSE, 0, <<1>> \o Pad0(51) \o <<1>>) }
OctPool == { << >>, <<0>>, <<255, 0, 128>>, <<65, 66, 67, 68, 69>>, [i \in 1..40 |-> (i * 7) % 256] }
Pool(n) == CASE Takes(n) = "int" -> { Val("int", x) : x \in IntPool }
             [] Takes(n) = "float" -> { Val("float", x) : x \in FloatPool }
             [] Takes(n) = "bool" -> { Val("bool", 0), Val("bool", 1) }
             [] OTHER -> { Val("octets", x) : x \in OctPool }

\* The primitives by themselves: exact inverses, of the width they say
PrimInverse == \A n \in Names : \A v \in Pool(n) :
    Accepts(n, v) => LET b == Writes(n, v)
                         k == Len(b)
                     IN /\ Kind(n) \notin {"utf", "bytes"} => k = Width(n)
                        /\ Needs(n, b, k) = k /\ Needs(n, b \o <<7>>, k) = k
                        /\ Reads(n, b, k) = Rounded(n, v)
                        /\ \A m \in 0..(k - 1) : Needs(n, SubSeq(b, 1, m), k) = -1
PrimInjective == \A n \in Names : Kind(n) # "f" => \A v, u \in { x \in Pool(n) : Accepts(n, x) } : v # u => Writes(n, v) # Writes(n, u)
ASSUME PrimInverse /\ PrimInjective
Flat(v) == IF v.t = "int" THEN <<v.t, v.x.neg, v.x.mag>>
           ELSE IF v.t = "float" THEN <<v.t, v.x.neg, v.x.kind, v.x.e, v.x.bits>> ELSE <<v.t, v.x>>
ASSUME EmitOn => \A n \in Names : \A v \in Pool(n) :
    PrintT(ToJson([prim |-> n, v |-> Flat(v), ok |-> Accepts(n, v), b |-> IF Accepts(n, v) THEN Writes(n, v) ELSE << >>]))

\* Writing at a position replaces what is there and goes on after the end
Over(m, p, b) == [i \in 1..(IF p + Len(b) > Len(m) THEN p + Len(b) ELSE Len(m)) |->
                   IF i > p /\ i <= p + Len(b) THEN b[i - p] ELSE m[i]]
Log(op, n, v, k, res) == hist' = IF EmitOn THEN Append(hist, [op |-> op, n |-> n, v |-> v, k |-> k, res |-> res, pos |-> pos', mem |-> mem'])
                                 ELSE << [op |-> op, n |-> n, v |-> v, k |-> k, res |-> res] >>
Nil == <<"none">>
Init == mem = << >> /\ pos = 0 /\ lost = FALSE /\ hist = << >>
Write(n, v) == /\ ~lost
               /\ IF Accepts(n, v)
                  THEN LET b == Writes(n, v) IN /\ pos + Len(b) <= MaxLen
                                                /\ mem' = Over(mem, pos, b) /\ pos' = pos + Len(b)
                  ELSE UNCHANGED <<mem, pos>>
               /\ UNCHANGED lost /\ Log("write", n, Flat(v), 0, IF Accepts(n, v) THEN "ok" ELSE "error")
\* after a failed read the position is not known: the program seeks
Read(n, k) == /\ ~lost
              /\ LET s == SubSeq(mem, pos + 1, Len(mem)) need == Needs(n, s, k) IN
                 IF need < 0 THEN lost' = TRUE /\ UNCHANGED <<mem, pos>> /\ Log("read", n, Nil, k, "error")
                 ELSE /\ pos' = pos + need /\ UNCHANGED <<mem, lost>>
                      /\ Log("read", n, Flat(Reads(n, s, k)), k, "ok")
Seek(p) == /\ p # pos \/ lost
           /\ pos' = p /\ lost' = FALSE /\ UNCHANGED mem /\ Log("seek", "", Nil, p, "ok")
Stop == Len(hist) = Depth /\ EmitOn /\ UNCHANGED <<mem, pos, lost>> /\ Log("stop", "", Nil, 0, "ok")
\* Generating histories, a few successors of each state are enough
Some(S) == IF EmitOn THEN { RandomElement(S) } ELSE S
Go == /\ EmitOn => Len(hist) < Depth
      /\ \/ \E n \in Some(Names) : \E v \in Some({ x \in Pool(n) : EmitOn => Accepts(n, x) }) : Write(n, v)
         \/ \E n \in Some(Names) : \E v \in Some(Pool(n)) : Write(n, v)
         \/ \E n \in Some(Names) : \E k \in (IF n = "bytes" THEN Some({0, 1, 3, 9}) ELSE {0}) : Read(n, k)
         \/ \E n \in Some({"uint8", "int8", "short", "uint32", "float", "double", "boolean", "utf"}) : Read(n, 0)
         \/ \E p \in Some(0..Len(mem)) : Seek(p)
Next == Go \/ Stop
Spec == Init /\ [][Next]_vars
Emit == (EmitOn /\ Len(hist) > Depth) => PrintT(ToJson([hist |-> hist]))

View == <<mem, pos, lost>>
Small == Len(mem) <= MaxLen
\* C14: reading changes nothing; writing changes the octets it writes over and no others
ReadOnly == [][(hist' # << >> /\ hist'[Len(hist')].op \in {"read", "seek"}) => mem' = mem]_vars
Local == [][(hist' # << >> /\ hist'[Len(hist')].op = "write") =>
            /\ Len(mem') >= Len(mem)
            /\ \A i \in DOMAIN mem : (i <= pos \/ i > pos') => mem'[i] = mem[i]]_vars
TypeOK == pos <= Len(mem) /\ \A i \in DOMAIN mem : mem[i] \in 0..255
=============================================================================
