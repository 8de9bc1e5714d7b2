------------------------------ MODULE Marking ------------------------------
(***************************************************************************)
(* The entity marking: a character set octet and eleven octets of text.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS Depth, EmitOn, Lengths, Marks
VARIABLES cs, text, shown, hist         \* of each of Marks markings
vars == <<cs, text, shown, hist>>
N == 11
Fill(t) == [i \in 1..N |-> IF i <= Len(t) THEN t[i] ELSE 0]
Wire(m) == <<cs[m]>> \o text[m]
Ascii(t) == \A i \in DOMAIN t : t[i] > 0 /\ t[i] < 128
First(t) == IF Len(t) <= N THEN t ELSE SubSeq(t, 1, N)
\* texts (character codes) by length and a first character
Text(n, x, d) == [i \in 1..n |-> (x + d * i) % 256]
Texts == { Text(n, x, d) : n \in Lengths, x \in {0, 1, 65, 127, 128, 255}, d \in {0, 1, 7} }
         \cup { Text(n, 64, 1) \o <<0>> \o Text(m, 70, 1) : n \in {0, 3, 10, 11}, m \in {0, 2, 5} }
         \cup { <<65 + n>> \o Text(10, 97, 1) : n \in 0..3 }
Short == { << >>, <<65>>, <<0>>, Fill(<< >>) }
Log(op, m, t) == hist' = IF EmitOn THEN Append(hist, [op |-> op, m |-> m, t |-> t, b |-> [k \in 1..Marks |-> Wire(k)'], shown |-> shown'])
                         ELSE << [op |-> op, m |-> m] >>
\* shown: <<text>> when reading back is promised to give it, or nothing
Init == /\ cs = [m \in 1..Marks |-> 0] /\ text = [m \in 1..Marks |-> Fill(<< >>)]
        /\ shown = [m \in 1..Marks |-> << << >> >>] /\ hist = << >>
Some(S) == IF EmitOn THEN { RandomElement(S) } ELSE S
SetString(m, t) == /\ text' = [text EXCEPT ![m] = Fill(t)] /\ cs' = cs
                   /\ shown' = [shown EXCEPT ![m] = IF Ascii(t) THEN << First(t) >> ELSE << >>]
                   /\ Log("setString", m, t)
SetSet(m, c) == cs' = [cs EXCEPT ![m] = c] /\ UNCHANGED <<text, shown>> /\ Log("characterSet", m, <<c>>)
\* one character changed in the list of characters
Poke(m, i, x) == /\ text' = [text EXCEPT ![m][i] = x] /\ cs' = cs
                 /\ shown' = [shown EXCEPT ![m] = << >>]
                 /\ Log("poke", m, <<i, x>>)
\* octets received replace everything
Parse(m, b) == /\ cs' = [cs EXCEPT ![m] = b[1]] /\ text' = [text EXCEPT ![m] = Tail(b)]
               /\ shown' = [shown EXCEPT ![m] = IF Ascii(Tail(b)) THEN << Tail(b) >> ELSE << >>]
               /\ Log("parse", m, b)
\* a new marking takes the place of one
Fresh(m) == /\ cs' = [cs EXCEPT ![m] = 0] /\ text' = [text EXCEPT ![m] = Fill(<< >>)]
            /\ shown' = [shown EXCEPT ![m] = << << >> >>] /\ Log("fresh", m, << >>)
Stop == Len(hist) = Depth /\ EmitOn /\ UNCHANGED <<cs, text, shown>> /\ Log("stop", 0, << >>)
Go == (EmitOn => Len(hist) < Depth) /\ \E m \in 1..Marks :
      \/ \E t \in Some(Texts) : SetString(m, t)
      \/ \E t \in Some(Short) : SetString(m, t)
      \/ \E c \in Some({0, 1, 2, 255}) : SetSet(m, c)
      \/ \E t \in Some(Texts) : Parse(m, <<Len(t)>> \o Fill(t))
      \/ EmitOn /\ \E i \in Some(1..N), x \in Some({0, 1, 65, 255}) : Poke(m, i, x)
      \/ EmitOn /\ Fresh(m)
Next == Go \/ Stop
Spec == Init /\ [][Next]_vars
View == <<cs, text, shown>>
\* C17
Twelve == \A m \in 1..Marks : Len(Wire(m)) = 12 /\ \A i \in 1..12 : Wire(m)[i] \in 0..255
Latest == hist'[Len(hist')]
SetOnly == [][(hist' # << >> /\ Latest.op = "characterSet") => text' = text]_vars
TextOnly == [][(hist' # << >> /\ Latest.op = "setString") => cs' = cs]_vars
\* C08: nothing is done to one marking by way of another
Alone == [][\A m \in 1..Marks : (hist' # << >> /\ Latest.m # m) => Wire(m)' = Wire(m)]_vars
ReadsBack == \A m \in 1..Marks : shown[m] # << >> => Fill(shown[m][1]) = text[m]
Emit == (EmitOn /\ Len(hist) > Depth) => PrintT(ToJson([hist |-> hist]))
ASSUME EmitOn => \A t \in Texts : PrintT(ToJson([text |-> t, b |-> Fill(t), shown |-> IF Ascii(t) THEN << First(t) >> ELSE << >>]))
=============================================================================
