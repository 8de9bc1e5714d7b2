----------------------------- MODULE Session -----------------------------
(***************************************************************************)
(* A program using the library: it holds a few PDU (or record) objects,    *)
(* builds and edits them, writes them to a stream and decodes messages     *)
(* from it, into new objects and into used ones, with decodes and writes   *)
(* of different objects overlapping, and with malformed input in between.  *)
(* The contents of an object are abstract: a label for each group of its   *)
(* items ("s" scalars, "n" nested records, "l" lists and variable parts;   *)
(* label 0 is the default).  Every object the program holds is either      *)
(* settled (the contents are known) or not (a decode into it failed or is  *)
(* under way).  Objects 1..Same are of one class, the others of another.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Objs, Same, Labels, Groups, MaxWire, Depth, EmitOn
VARIABLES held,     \* object -> [st, con]: st "none", "ok", "dirty", "reading", "writing"
          wire,     \* messages in the stream: [k, con]
          rpos,     \* how many of them have been read
          inflight, \* object -> the contents of the message being decoded into it
          hist
vars == <<held, wire, rpos, inflight, hist>>
world == <<held, wire, rpos, inflight>>

Kind(o) == IF o <= Same THEN "A" ELSE "B"
Whole(lb) == [g \in Groups |-> lb]
Fresh == Whole(0)
NoObj == [st |-> "none", con |-> Fresh]
Msg(k, con) == [k |-> k, con |-> con]

Init == /\ held = [o \in Objs |-> NoObj] /\ wire = << >> /\ rpos = 0
        /\ inflight = [o \in Objs |-> Fresh] /\ hist = << >>
\* With EmitOn the whole history is kept, otherwise the last operation only
Step(op, o, g, lb) == [op |-> op, o |-> o, g |-> g, lb |-> lb, held |-> held',
                       sent |-> IF Len(wire') > Len(wire) THEN wire'[Len(wire')].con ELSE Fresh]
Log(op, o, g, lb) == hist' = Append(IF EmitOn THEN hist ELSE << >>, Step(op, o, g, lb))
Put(o, st, con) == held' = [held EXCEPT ![o] = [st |-> st, con |-> con]]
Idle(o) == held[o].st \in {"none", "ok", "dirty"}

New(o) == /\ Idle(o) /\ Put(o, "ok", Fresh) /\ UNCHANGED <<wire, rpos, inflight>> /\ Log("new", o, "", 0)
Make(o, lb) == /\ Idle(o) /\ Put(o, "ok", Whole(lb)) /\ UNCHANGED <<wire, rpos, inflight>> /\ Log("make", o, "", lb)
\* assign new components, or edit the ones that are there
Set(o, g, lb) == /\ held[o].st = "ok" /\ Put(o, "ok", [held[o].con EXCEPT ![g] = lb])
                 /\ UNCHANGED <<wire, rpos, inflight>> /\ Log("set", o, g, lb)
Edit(o, g, lb) == /\ held[o].st = "ok" /\ Put(o, "ok", [held[o].con EXCEPT ![g] = lb])
                  /\ UNCHANGED <<wire, rpos, inflight>> /\ Log("edit", o, g, lb)
Write(o) == /\ held[o].st = "ok" /\ Len(wire) < MaxWire
            /\ wire' = Append(wire, Msg(Kind(o), held[o].con))
            /\ UNCHANGED <<held, rpos, inflight>> /\ Log("write", o, "", 0)
\* a message from elsewhere arrives
Send(k, lb) == /\ Len(wire) < MaxWire /\ wire' = Append(wire, Msg(k, Whole(lb)))
               /\ UNCHANGED <<held, rpos, inflight>> /\ Log("send", 0, k, lb)
Next1 == wire[rpos + 1]
CanRead(o) == rpos < Len(wire) /\ Next1.k = Kind(o)
\* decode into an object the program holds, whatever it holds
Read(o) == /\ CanRead(o) /\ held[o].st \in {"ok", "dirty"}
           /\ Put(o, "ok", Next1.con) /\ rpos' = rpos + 1
           /\ UNCHANGED <<wire, inflight>> /\ Log("read", o, "", 0)
\* decode through the factory (records: into a fresh object); the message stays in the stream
Fac(o) == /\ CanRead(o) /\ Idle(o) /\ Put(o, "ok", Next1.con)
          /\ UNCHANGED <<wire, rpos, inflight>> /\ Log("fac", o, "", 0)
\* malformed input: a truncated message or an unknown type, into nothing the program holds
Bad(lb) == UNCHANGED world /\ Log("bad", 0, "", lb)
Alien == UNCHANGED world /\ Log("alien", 0, "", 0)
\* a truncated message decoded into an object: its contents are no longer known
BadInto(o, lb) == /\ held[o].st = "ok" /\ Put(o, "dirty", Fresh)
                  /\ UNCHANGED <<wire, rpos, inflight>> /\ Log("badinto", o, "", lb)
\* a decode that other operations overlap
Begin(o, lb) == /\ held[o].st \in {"ok", "dirty"} /\ Put(o, "reading", Fresh)
                /\ inflight' = [inflight EXCEPT ![o] = Whole(lb)]
                /\ UNCHANGED <<wire, rpos>> /\ Log("begin", o, "", lb)
End(o) == /\ held[o].st = "reading" /\ Put(o, "ok", inflight[o])
          /\ inflight' = [inflight EXCEPT ![o] = Fresh]
          /\ UNCHANGED <<wire, rpos>> /\ Log("end", o, "", 0)
\* a write that other operations overlap (to a stream of its own)
BeginW(o) == /\ held[o].st = "ok" /\ Put(o, "writing", held[o].con)
             /\ UNCHANGED <<wire, rpos, inflight>> /\ Log("beginw", o, "", 0)
EndW(o) == /\ held[o].st = "writing" /\ Put(o, "ok", held[o].con)
           /\ UNCHANGED <<wire, rpos, inflight>> /\ Log("endw", o, "", 0)
Drop(o) == /\ held[o].st \in {"ok", "dirty"} /\ held' = [held EXCEPT ![o] = NoObj]
           /\ UNCHANGED <<wire, rpos, inflight>> /\ Log("drop", o, "", 0)

Pos == Labels \ {0}
Act(o) == \/ New(o) \/ \E lb \in Pos : Make(o, lb) \/ BadInto(o, lb) \/ Begin(o, lb)
          \/ \E g \in Groups, lb \in Pos : Set(o, g, lb) \/ Edit(o, g, lb)
          \/ Write(o) \/ Read(o) \/ Fac(o) \/ End(o) \/ BeginW(o) \/ EndW(o) \/ Drop(o)
\* the program ends
Stop == /\ Len(hist) = Depth /\ UNCHANGED world /\ Log("stop", 0, "", 0)
Go ==   /\ Len(hist) < Depth
        /\ \/ \E o \in Objs : Act(o)
           \/ \E k \in {Kind(o) : o \in Objs}, lb \in Pos : Send(k, lb)
           \/ \E lb \in Pos : Bad(lb)
           \/ Alien
Next == Go \/ Stop
Spec == Init /\ [][Next]_vars
Emit == (EmitOn /\ Len(hist) > Depth) => PrintT(ToJson([hist |-> hist]))

-----------------------------------------------------------------------------
\* For exploring the states themselves: how they were reached does not matter
View == world
Short == Len(hist) < Depth
Last == hist'[Len(hist')]
\* C08: an operation changes no object but the one it names
Isolated == [][\A o \in Objs : o # Last.o => held'[o] = held[o]]_vars
\* C09: writing changes no object, and adds to the stream only
WritePure == [][Last.op = "write" => held' = held /\ Len(wire') = Len(wire) + 1
                                     /\ SubSeq(wire', 1, Len(wire)) = wire]_vars
\* C06, C10: what a decode gives is the message, whatever was held or decoded before
ReadGives == [][(Last.op \in {"read", "fac"} => held'[Last.o].con = wire[rpos + 1].con /\ wire' = wire)
                /\ (Last.op = "end" => held'[Last.o].con = inflight[Last.o])]_vars
\* malformed input leaves everything else as it was
BadHarmless == [][Last.op \in {"bad", "alien"} => world' = world]_vars
WireGrows == [][SubSeq(wire', 1, Len(wire)) = wire /\ rpos' >= rpos]_vars
TypeOK == /\ rpos <= Len(wire) /\ Len(wire) <= MaxWire
          /\ \A o \in Objs : held[o].st \in {"none", "ok", "dirty", "reading", "writing"}
=============================================================================
