---------------------------- MODULE StreamTrace ----------------------------
(***************************************************************************)
(* Judges recorded uses of the stream primitives:                          *)
(*   w [n, v, ok, b]       value v was written with primitive n: octets b  *)
(*   r [n, b, k, ok, v, u] primitive n read from octets b: value, octets   *)
(*                         used                                            *)
(***************************************************************************)
EXTENDS Prims, TLC, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES phase, line, event, verdict
vars == <<phase, line, event, verdict>>
Unflat(f) == IF f[1] = "int" THEN Val("int", IntVal(f[2], f[3]))
             ELSE IF f[1] = "float" THEN Val("float", [neg |-> f[2], kind |-> f[3], e |-> f[4], bits |-> f[5]])
             ELSE Val(f[1], f[2])
IsNaN(v) == v.t = "float" /\ v.x.kind = "nan"
Same(v, w) == v.t = w.t /\ ((IsNaN(v) /\ IsNaN(w)) \/ v = w)
JudgeW(e) == LET v == Unflat(e.v) IN
    IF ~Accepts(e.n, v) THEN (IF e.ok THEN {"accepted"} ELSE {})
    ELSE IF ~e.ok THEN {"refused"}
    ELSE IF IsNaN(v) \/ e.b = Writes(e.n, v) THEN {} ELSE {"octets"}
JudgeR(e) == LET need == Needs(e.n, e.b, e.k) IN
    IF need < 0 THEN (IF e.ok THEN {"truncated"} ELSE {})
    ELSE IF ~e.ok THEN {"unreadable"}
    ELSE (IF e.u = need THEN {} ELSE {"consumed"}) \cup (IF Same(Unflat(e.v), Reads(e.n, e.b, e.k)) THEN {} ELSE {"value"})
Init == phase = "start" /\ line = 0 /\ event = << >> /\ verdict = {}
Load == /\ phase = "start" /\ phase' = "loaded" /\ verdict' = {}
        /\ LET t == Trace IN \E k \in DOMAIN t : line' = k /\ event' = t[k]
Step == phase = "loaded" /\ phase' = "judged" /\ line' = line /\ event' = << >>
        /\ verdict' = IF event.e = "w" THEN JudgeW(event) ELSE JudgeR(event)
Next == Load \/ Step
Spec == Init /\ [][Next]_vars
Report == phase = "judged" => (verdict = {} \/ PrintT(ToJson([bad |-> line, why |-> SetToSeq(verdict)])))
ASSUME PrintT(ToJson([events |-> Len(Trace)]))
=============================================================================
