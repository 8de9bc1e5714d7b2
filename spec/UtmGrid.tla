------------------------------- MODULE UtmGrid -------------------------------
(***************************************************************************)
(* The zones and bands of the UTM grid, as the rectangles of its map, on   *)
(* cells of half a degree: cell <<i, j>> holds the latitudes               *)
(* [i/2, (i+1)/2) and the longitudes [j/2, (j+1)/2).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES row, zones, letter
vars == <<row, zones, letter>>
(* <<zone, south, north, west, east>> in degrees; the regular strips, and the maps of Norway and Svalbard. *)
Norway == { <<31, 56, 64, 0, 3>>, <<32, 56, 64, 3, 12>> }
Svalbard == { <<31, 72, 84, 0, 9>>, <<33, 72, 84, 9, 21>>, <<35, 72, 84, 21, 33>>, <<37, 72, 84, 33, 42>> }
Regular == { <<z, -80, 84, 6*z - 186, 6*z - 180>> : z \in 1..60 }
Special == Norway \cup Svalbard
Inside(r, i, j) == 2*r[2] <= i /\ i < 2*r[3] /\ 2*r[4] <= j /\ j < 2*r[5]
Maps(i, j) == LET s == {r \in Special : Inside(r, i, j)} IN IF s # {} THEN s ELSE {r \in Regular : Inside(r, i, j)}
Bands == <<"C", "D", "E", "F", "G", "H", "J", "K", "L", "M", "N", "P", "Q", "R", "S", "T", "U", "V", "W", "X">>
South(k) == 8*k - 88
North(k) == IF k = 20 THEN 84 ELSE 8*k - 80
LetterOf(i) == LET s == {k \in 1..20 : 2*South(k) <= i /\ i < 2*North(k)} IN IF s = {} THEN "Z" ELSE Bands[CHOOSE k \in s : TRUE]
ZoneAt(i, j) == LET s == Maps(i, j) IN IF s = {} THEN 0 ELSE (CHOOSE r \in s : TRUE)[1]

Init == row = -181 /\ zones = << >> /\ letter = "Z"
Next == /\ row < 179
        /\ row' = row + 1
        /\ zones' = [n \in 1..720 |-> IF row' < -160 \/ row' >= 168 THEN 0 ELSE ZoneAt(row', n - 361)]
        /\ letter' = LetterOf(row')
Spec == Init /\ [][Next]_vars
OnGrid == row >= -160 /\ row < 168
(* Every cell of the grid is on one map, every zone but three appears in every row, in order from the west. *)
One == OnGrid => \A j \in -360..359 : Cardinality(Maps(row, j)) = 1
Ordered == OnGrid => \A n \in 1..719 : zones[n] <= zones[n+1] /\ zones[n+1] <= zones[n] + 2
Missing == OnGrid => (1..60) \ {zones[n] : n \in 1..720} = IF row >= 144 THEN {32, 34, 36} ELSE {}
(* No cell is more than nine degrees from the meridian of its zone. *)
Near == OnGrid => \A n \in 1..720 : LET m == 6*zones[n] - 183 IN 2*m - 18 <= n - 361 /\ n - 361 < 2*m + 18
Lettered == OnGrid <=> letter # "Z"
Emit == row > -181 => PrintT(ToJson([row |-> row, letter |-> letter, zones |-> zones]))
=============================================================================
