------------------------------- MODULE BathyNb -------------------------------
(***************************************************************************)
(* Neighbours of a tile, found by its place in the array of tiles, and the *)
(* soundings of the neighbours that lie within a buffer of the border they *)
(* share.  The row index grows with y: "up" is the row before.             *)
(* For every array (a bit for each place), tile and buffer the answer is   *)
(* what the coordinates say.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Rows, Cols, T, Bufs, BUG

VARIABLES a, who, buf
vars == <<a, who, buf>>

Places == (1..Rows) \X (1..Cols)
Held == {p \in Places : a[p[1]][p[2]] = 1}
MinX(p) == (p[2] - 1) * T
MinY(p) == (p[1] - 1) * T
\* a sounding at every whole position of a tile
Pts(p) == {<<x, y>> : x \in MinX(p)..(MinX(p) + T - 1), y \in MinY(p)..(MinY(p) + T - 1)}
\* the mechanism: by index; <<>> is no tile
At(r, c) ==
  LET rr == IF BUG = "wraps_around" /\ r = 0 THEN Rows ELSE r
      cc == IF BUG = "wraps_around" /\ c = 0 THEN Cols ELSE c
      lastr == IF BUG = "last_row_hidden" THEN Rows - 1 ELSE Rows
  IN IF rr < 1 \/ rr > lastr \/ cc < 1 \/ cc > Cols THEN <<>> ELSE IF <<rr, cc>> \in Held THEN <<rr, cc>> ELSE <<>>
Mech == << At(who[1] - 1, who[2]), IF BUG = "right_is_left" THEN At(who[1], who[2] - 1) ELSE At(who[1], who[2] + 1), At(who[1] + 1, who[2]), At(who[1], who[2] - 1) >>
Near(k, p, q) == CASE k = 1 -> IF BUG = "sides_swapped" THEN q[2] <= MinY(p) + buf ELSE q[2] >= MinY(p) + T - buf
                   [] k = 2 -> IF BUG = "strict" THEN q[1] < MinX(p) + buf ELSE q[1] <= MinX(p) + buf
                   [] k = 3 -> q[2] <= MinY(p) + buf
                   [] k = 4 -> q[1] >= MinX(p) + T - buf
Soundings == UNION {IF Mech[k] = <<>> THEN {} ELSE {q \in Pts(Mech[k]) : Near(k, Mech[k], q)} : k \in 1..4}

Init == /\ a \in [1..Rows -> [1..Cols -> 0..1]]
        /\ who \in Places /\ a[who[1]][who[2]] = 1
        /\ buf \in Bufs
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* the contract: by coordinates
Beside(dx, dy) == LET S == {p \in Held : MinX(p) = MinX(who) + dx /\ MinY(p) = MinY(who) + dy} IN IF S = {} THEN <<>> ELSE CHOOSE p \in S : TRUE
Neighbours == Mech = <<Beside(0, -T), Beside(T, 0), Beside(0, T), Beside(-T, 0)>>
Abs(x) == IF x < 0 THEN -x ELSE x
\* distance from the border of who
Dist(q) == LET dx == IF q[1] < MinX(who) THEN MinX(who) - q[1] ELSE IF q[1] >= MinX(who) + T THEN q[1] - (MinX(who) + T) ELSE 0
               dy == IF q[2] < MinY(who) THEN MinY(who) - q[2] ELSE IF q[2] >= MinY(who) + T THEN q[2] - (MinY(who) + T) ELSE 0
           IN dx + dy
Beyond == {p \in Held : p # who /\ (p[1] = who[1] \/ p[2] = who[2]) /\ Abs(p[1] - who[1]) + Abs(p[2] - who[2]) = 1}
Border == Soundings = {q \in UNION {Pts(p) : p \in Beyond} : Dist(q) <= buf}
=============================================================================
