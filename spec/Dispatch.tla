----------------------------- MODULE Dispatch -----------------------------
(***************************************************************************)
(* The factory: a datagram comes in, its third octet selects the decoder,  *)
(* the decoder accepts or rejects the rest.  Every type number, with every *)
(* kind of rest, under headers that say different things about version,    *)
(* exercise and family.                                                    *)
(***************************************************************************)
EXTENDS Gen, Json
CONSTANTS Headers,     \* which header variants are explored
          BodyPats, BodyShapes, EmitOn
\* octets 1, 2, 4 and 11 of the header: version, exercise, family, status
HeaderSeq == << <<7, 0, 1, 0>>, <<6, 1, 2, 8>>, <<0, 0, 0, 0>>, <<255, 255, 255, 255>>, <<5, 25, 129, 27>>, <<4, 2, 13, 1>>,
                <<1, 4, 5, 67>>, <<7, 72, 10, 25>>, <<2, 3, 4, 5>> >>
Supported == { t \in 0..255 : Dispatch(t) # {} }
ClassOf(t) == CHOOSE c \in Dispatch(t) : TRUE
\* what follows the header of an unsupported type, and of a supported one that is wrong
Rests == {"none", "short", "body", "long"}
Bodies == {"whole", "more", "cut", "head", "none"}

VARIABLES phase, kind, head, form, bshape, bpat, datagram, answer
vars == <<phase, kind, head, form, bshape, bpat, datagram, answer>>
NoAnswer == [res |-> "", c |-> "", v |-> << >>]

Patch(b, h, t) == [i \in DOMAIN b |-> CASE i = 1 -> HeaderSeq[h][1] [] i = 2 -> HeaderSeq[h][2] [] i = 3 -> t
                                      [] i = 4 -> HeaderSeq[h][3] [] i = 11 -> HeaderSeq[h][4] [] OTHER -> b[i]]
Whole(t, s, p) == EncTop(ClassOf(t), GenTop(ClassOf(t), s, p))
Junk(n) == [i \in 1..n |-> (i * 37 + 5) % 256]
Datagram(t, h, f, s, p) ==
    IF t \notin Supported
    THEN Patch(CASE f = "none" -> Junk(3) [] f = "short" -> Junk(9) [] f = "body" -> Junk(12) \o Zeros(100) [] OTHER -> Junk(200), h, t)
    ELSE LET w == Whole(t, s, p) IN
         Patch(CASE f = "whole" -> w [] f = "more" -> w \o Junk(13) [] f = "cut" -> SubSeq(w, 1, Len(w) - 1)
                 [] f = "head" -> SubSeq(w, 1, 12) [] OTHER -> SubSeq(w, 1, 3), h, t)
\* what the factory answers
Answer(b) ==
    IF Len(b) < 3 THEN [res |-> "error", c |-> "", v |-> << >>]
    ELSE IF b[3] \notin Supported THEN [res |-> "none", c |-> "", v |-> << >>]
    ELSE LET d == DecTop(ClassOf(b[3]), b)
         IN IF d.ok THEN [res |-> "pdu", c |-> ClassOf(b[3]), v |-> d.v] ELSE [res |-> "error", c |-> "", v |-> << >>]

Init == phase = "idle" /\ kind = 0 /\ head = 0 /\ form = "" /\ bshape = 0 /\ bpat = "" /\ datagram = << >> /\ answer = NoAnswer
Arrive == /\ phase = "idle" /\ phase' = "arriving"
          /\ kind' \in 0..255 /\ head' \in Headers
          /\ IF kind' \in Supported
             THEN /\ form' \in Bodies
                  /\ bshape' \in (IF form' \in {"head", "none"} THEN {0} ELSE ShapesOf(ClassOf(kind')) \cap BodyShapes)
                  /\ bpat' \in (IF form' \in {"head", "none"} THEN {"ctr"} ELSE BodyPats)
             ELSE form' \in Rests /\ bshape' = 0 /\ bpat' = ""
          /\ UNCHANGED <<datagram, answer>>
Receive == /\ phase = "arriving" /\ phase' = "received"
           /\ datagram' = Datagram(kind, head, form, bshape, bpat)
           /\ UNCHANGED <<kind, head, form, bshape, bpat, answer>>
Decode == /\ phase = "received" /\ phase' = "answered" /\ answer' = Answer(datagram)
          /\ UNCHANGED <<kind, head, form, bshape, bpat, datagram>>
Next == Arrive \/ Receive \/ Decode
Spec == Init /\ [][Next]_vars

\* one class per type number at most, and none decodes two types
ASSUME \A t \in 0..255 : Cardinality(Dispatch(t)) <= 1
ASSUME \A t, u \in Supported : t # u => ClassOf(t) # ClassOf(u)
Done == phase = "answered"
\* C04: nothing but the third octet decides the class
TypeAlone == Done => (answer.res = "pdu" => answer.c = ClassOf(datagram[3]))
Unsupported == Done => ((answer.res = "none") <=> (kind \notin Supported))
\* a complete datagram is accepted, with whatever follows; an incomplete one is not
Accepts == (Done /\ kind \in Supported) => ((answer.res = "pdu") <=> (form \in {"whole", "more"}))
\* the contents are those of the datagram, header octets included
HeaderKept == (Done /\ answer.res = "pdu") =>
    LET h == HeaderSeq[head] IN answer.v[1] = <<h[1]>> /\ answer.v[2] = <<h[2]>> /\ answer.v[3] = <<kind>> /\ answer.v[4] = <<h[3]>>
Emit == (EmitOn /\ Done) => PrintT(ToJson([b |-> datagram, res |-> answer.res, c |-> answer.c, v |-> answer.v, t |-> kind]))
=============================================================================
