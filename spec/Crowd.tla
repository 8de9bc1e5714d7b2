------------------------------ MODULE Crowd ------------------------------
(***************************************************************************)
(* A long-running program: a table of many objects decoded from the        *)
(* traffic of an exercise, which stay in it while hundreds of further      *)
(* messages arrive.  An entry is of a kind (a class) and has contents (a   *)
(* label).  Session.tla has every way of using a few objects; here there   *)
(* are few operations and many objects, so that anything that is kept      *)
(* between decodes - a pool, a table of limited size, a counter - has      *)
(* time to overflow.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Kinds, Labels, Ways, MaxKept, Depth, EmitOn
VARIABLES table,    \* the entries, oldest first: [k, lb]
          log       \* what happened: [op, i, k, lb, way]
vars == <<table, log>>

Entry(k, lb) == [k |-> k, lb |-> lb]
Ev(op, i, k, lb, way) == [op |-> op, i |-> i, k |-> k, lb |-> lb, way |-> way]
Note(e) == log' = Append(IF EmitOn THEN log ELSE << >>, e)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* the entry an operation is about: any of them, when exploring; a random one when simulating
Some == IF table = << >> THEN {} ELSE IF EmitOn THEN {RandomElement(1..Len(table))} ELSE 1..Len(table)

Init == table = << >> /\ log = << >>
\* a message arrives and becomes an entry (way: through the factory, its class, or built here from values)
Arrive(k, lb, way) == /\ Len(table) < MaxKept /\ table' = Append(table, Entry(k, lb))
                      /\ Note(Ev("arrive", 0, k, lb, way))
\* an update: a message is decoded into an entry
Update(i, lb) == /\ table' = [table EXCEPT ![i].lb = lb] /\ Note(Ev("update", i, table[i].k, lb, ""))
\* an entry is sent
Relay(i) == UNCHANGED table /\ Note(Ev("relay", i, table[i].k, table[i].lb, ""))
\* an entry times out
Expire(i) == table' = Without(table, i) /\ Note(Ev("expire", i, table[i].k, table[i].lb, ""))
\* a message that cannot be decoded
Noise(k, lb) == UNCHANGED table /\ Note(Ev("noise", 0, k, lb, ""))

Stop == Len(log) = Depth /\ UNCHANGED table /\ Note(Ev("stop", 0, "", 0, ""))
Go == /\ Len(log) < Depth
      /\ \/ \E k \in Kinds, lb \in Labels, way \in Ways : Arrive(k, lb, way)
         \/ \E i \in Some : \E lb \in Labels : Update(i, lb)
         \/ \E i \in Some : Relay(i) \/ Expire(i)
         \/ \E k \in Kinds : \E lb \in Labels : Noise(k, lb)
Next == Go \/ Stop
Spec == Init /\ [][Next]_vars
Emit == (EmitOn /\ Len(log) > Depth) => PrintT(ToJson([log |-> log, table |-> table]))

-----------------------------------------------------------------------------
View == table
Latest == log'[Len(log')]
TypeOK == Len(table) <= MaxKept /\ \A i \in 1..Len(table) : table[i] \in [k : Kinds, lb : Labels]
\* C08: what happens to one entry, or to none, leaves all others as they were
Apart == [][/\ (Latest.op \in {"relay", "noise", "stop"} => table' = table)
            /\ (Latest.op = "arrive" => SubSeq(table', 1, Len(table)) = table /\ Len(table') = Len(table) + 1)
            /\ (Latest.op = "update" => \A j \in 1..Len(table) : j # Latest.i => table'[j] = table[j])
            /\ (Latest.op = "expire" => table' = Without(table, Latest.i))]_vars
\* C10: an entry holds what the last message decoded into it says
Holds == [][/\ (Latest.op = "arrive" => table'[Len(table')] = Entry(Latest.k, Latest.lb))
            /\ (Latest.op = "update" => table'[Latest.i] = Entry(table[Latest.i].k, Latest.lb))]_vars
===========================================================================
