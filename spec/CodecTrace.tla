---------------------------- MODULE CodecTrace ----------------------------
(***************************************************************************)
(* Judges recorded executions of the implementation against the codec.     *)
(* Each line of the trace is one call and its outcome:                     *)
(*   enc  [c, v, b]           an object with contents v wrote octets b     *)
(*   dec  [c, b, ok, v, n, re] octets b were given to a fresh object of c: *)
(*        accepted or not, contents, octets consumed, what it serializes to*)
(*   fac  [b, res, c, v]      the factory was given b: res is "none",      *)
(*        "error" or "pdu" with the class and contents                     *)
(* A line that the specification does not allow is printed with the clause *)
(* it breaks.                                                              *)
(***************************************************************************)
EXTENDS Codec, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES phase, line, event, verdict
vars == <<phase, line, event, verdict>>

JudgeEnc(e) == IF EncTop(e.c, e.v) = e.b THEN {} ELSE {"octets"}
JudgeDec(e) ==
    LET d == DecTop(e.c, e.b) IN
    IF ~d.ok THEN (IF e.ok THEN {"accepted"} ELSE {})
    ELSE IF ~e.ok THEN {"refused"}
    ELSE (IF e.v = d.v THEN {} ELSE {"value"}) \cup
         (IF e.n = d.p - 1 THEN {} ELSE {"consumed"}) \cup
         (IF e.re = EncTop(e.c, d.v) THEN {} ELSE {"reencoded"})
JudgeFac(e) ==
    IF Len(e.b) < 3 THEN (IF e.res = "error" THEN {} ELSE {"accepted"})
    ELSE LET cs == Dispatch(e.b[3]) IN
         IF cs = {} THEN (IF e.res = "none" THEN {} ELSE {"unsupported"})
         ELSE LET c == CHOOSE x \in cs : TRUE
                  d == DecTop(c, e.b)
              IN IF ~d.ok THEN (IF e.res = "error" THEN {} ELSE {"accepted"})
                 ELSE IF e.res # "pdu" THEN {"refused"}
                 ELSE (IF e.c = c THEN (IF e.v = d.v THEN {} ELSE {"value"}) ELSE {"class"})
Judge(e) == CASE e.e = "enc" -> JudgeEnc(e) [] e.e = "dec" -> JudgeDec(e) [] e.e = "fac" -> JudgeFac(e)

Init == phase = "start" /\ line = 0 /\ event = << >> /\ verdict = {}
Load == /\ phase = "start" /\ phase' = "loaded" /\ verdict' = {}
        /\ LET t == Trace IN \E k \in DOMAIN t : line' = k /\ event' = t[k]
Step == phase = "loaded" /\ phase' = "judged" /\ line' = line /\ verdict' = Judge(event) /\ event' = << >>
Next == Load \/ Step
Spec == Init /\ [][Next]_vars
Report == phase = "judged" => (verdict = {} \/ PrintT(ToJson([bad |-> line, why |-> SetToSeq(verdict)])))
ASSUME PrintT(ToJson([events |-> Len(Trace)]))
=============================================================================
