------------------------------- MODULE MCSurf -------------------------------
(***************************************************************************)
(* How layers are put together, trimmed and asked at points.  Tiles of     *)
(* side TS lie in an array of Rows x Cols; each holds, for each of two     *)
(* resolutions, nothing or a set of populated cells.  The raster of one    *)
(* resolution is assembled tile by tile, trimmed to the box of its values, *)
(* given cell boundaries, and a point is looked up in it by counting       *)
(* boundaries; what has no answer goes on to the next coarser resolution.  *)
(* The contract says the same with sets of cells and no indices at all.    *)
(* Every content of the array is an initial state; all queries are asked   *)
(* in the invariants.  BUG plants one mistake (harness/selftest.py).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Rows, Cols, TS, Ress, MinX, MinY, MaxCells, BUG
VARIABLES held, asm, world
\* held: tile <<row, col>> -> resolution -> "none" or the set of cells <<i, j>> (row and column in the tile) that have a value
\* asm: the assembled arrays with their boxes and boundaries (second step); world: the same contents as the contract sees them

MinusThree == 0 - 3
NoData == <<>>
Outside == <<0>>
Tiles == (0..Rows - 1) \X (0..Cols - 1)
SetMin(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y
Order == CHOOSE q \in [1..Cardinality(Ress) -> Ress] : \A i, j \in DOMAIN q : i < j => q[i] < q[j]
NPer(r) == TS \div r
CellsIn(r) == (0..NPer(r) - 1) \X (0..NPer(r) - 1)
None == {<<-1, -1>>}     \* a tile that was not gridded at this resolution
Pop(h) == IF h = None THEN {} ELSE h

\* ---------------------------------------------------------------- contract: cells by their lower left corner, without indices
World(r) == {<<MinX + t[2] * TS + c[2] * r, MinY + t[1] * TS + c[1] * r, r, t, c>> : <<t, c>> \in {p \in Tiles \X CellsIn(r) : p[2] \in Pop(held[p[1]][r])}}
\* a value tells which cell it comes from
Value(w) == <<w[3], w[4], w[5]>>
RECURSIVE Answer(_, _, _)
Answer(k, x, y) ==
  IF k > Cardinality(Ress) THEN NoData
  ELSE LET hit == {w \in world[Order[k]] : 2 * w[1] <= x /\ x < 2 * (w[1] + w[3]) /\ 2 * w[2] <= y /\ y < 2 * (w[2] + w[3])}
       IN IF hit = {} THEN Answer(k + 1, x, y) ELSE Value(CHOOSE w \in hit : TRUE)

\* ---------------------------------------------------------------- mechanism: arrays
H == [r \in Ress |-> Rows * NPer(r)]
W == [r \in Ress |-> Cols * NPer(r)]
\* the tile at flat index k, and where it goes
TileOf(k) == <<k \div Cols, k % Cols>>
OffR(k, r) == (IF BUG = "offsets_swapped" THEN TileOf(k)[2] ELSE TileOf(k)[1]) * NPer(r)
OffC(k, r) == (IF BUG = "offsets_swapped" THEN TileOf(k)[1] ELSE TileOf(k)[2]) * NPer(r)
Raster(r) ==
  [i \in 0..H[r] - 1, j \in 0..W[r] - 1 |->
     LET from == {k \in 0..Rows * Cols - 1 : /\ i \in OffR(k, r)..(OffR(k, r) + NPer(r) - 1)
                                             /\ j \in OffC(k, r)..(OffC(k, r) + NPer(r) - 1)
                                             /\ held[TileOf(k)][r] # None}
     IN IF from = {} THEN NoData
        ELSE LET k == SetMax(from)
                 c == <<i - OffR(k, r), j - OffC(k, r)>>
                 c2 == IF BUG = "tile_transposed" THEN <<c[2], c[1]>> ELSE IF BUG = "tile_upside_down" THEN <<NPer(r) - 1 - c[1], c[2]>> ELSE c
             IN IF c2 \in held[TileOf(k)][r] THEN <<r, TileOf(k), c2>> ELSE NoData]
\* box of the values: rmin, cmin and one past the last row and column
Box(r, A) ==
  LET rows == {i \in 0..H[r] - 1 : \E j \in 0..W[r] - 1 : A[i, j] # NoData}
      cols == {j \in 0..W[r] - 1 : \E i \in 0..H[r] - 1 : A[i, j] # NoData}
  IN [rmin |-> SetMin(rows), cmin |-> SetMin(cols), rmax |-> SetMax(rows) + (IF BUG = "last_row_cut" THEN 0 ELSE 1), cmax |-> SetMax(cols) + 1]
\* boundaries of the rows or columns a..b-1, the one after the last included
Edges(lo, r, a, b) == [k \in 1..(b - a + (IF BUG = "last_boundary_missing" THEN 0 ELSE 1)) |-> lo + (a + k - 1) * r]
Count(edges, h) == Cardinality({k \in DOMAIN edges : 2 * edges[k] <= h})
Assembled(r) ==
  IF World(r) = {} THEN [none |-> TRUE]     \* nothing at this resolution: not in the list of resolutions
  ELSE LET A == Raster(r)
           b == Box(r, A)
       IN [none |-> FALSE, a |-> A, b |-> b,
           ex |-> Edges(IF BUG = "origin_of_box_forgotten" THEN MinX - b.cmin * r ELSE MinX, r, b.cmin, b.cmax),
           ey |-> Edges(MinY, r, b.rmin, b.rmax)]
Look(r, x, y) ==
  LET A == asm[r].a
      b == asm[r].b
      ex == asm[r].ex
      ey == asm[r].ey
      dx == Count(ex, x)
      dy == Count(ey, y)
      out == dx = 0 \/ dy = 0 \/ dx = Len(ex) \/ (dy = Len(ey) /\ BUG # "upper_side_open")
      di == (IF dy = Len(ey) THEN dy - 1 ELSE dy) - 1
  IN IF out THEN Outside ELSE A[b.rmin + di, b.cmin + dx - 1]
RECURSIVE Search(_, _, _)
Search(k, x, y) ==
  LET q == IF BUG = "coarse_first" THEN Cardinality(Ress) + 1 - k ELSE k IN
  IF k > Cardinality(Ress) THEN NoData
  ELSE IF asm[Order[q]].none THEN Search(k + 1, x, y)
  ELSE LET a == Look(Order[q], x, y) IN
       IF a = Outside THEN IF BUG = "outside_ends" THEN NoData ELSE Search(k + 1, x, y)
       ELSE IF a = NoData /\ BUG # "box_is_answer" THEN Search(k + 1, x, y)
       ELSE a

Sets(r) == {None} \cup {S \in SUBSET CellsIn(r) : Cardinality(S) <= MaxCells}
Holds == {f \in [Ress -> UNION {Sets(r) : r \in Ress}] : \A r \in Ress : f[r] \in Sets(r)}
Init == /\ held \in [Tiles -> Holds]
        /\ \E t \in Tiles : \E r \in Ress : Pop(held[t][r]) # {}
        /\ asm = <<>> /\ world = <<>>
Next == /\ asm = <<>>
        /\ asm' = [r \in Ress |-> Assembled(r)]
        /\ world' = [r \in Ress |-> World(r)]
        /\ UNCHANGED held
Spec == Init /\ [][Next]_<<held, asm, world>>

\* half units, so that points inside cells and on their boundaries are both asked, inside and around the grid
Points == {<<x, y>> : x \in 2 * MinX - 1..2 * (MinX + Cols * TS) + 1, y \in 2 * MinY - 1..2 * (MinY + Rows * TS) + 1}
PointQueries == asm = <<>> \/ \A p \in Points : Search(1, p[1], p[2]) = Answer(1, p[1], p[2])
\* every value once, at its place
Rasters == asm = <<>> \/ \A r \in Ress : world[r] # {} =>
  LET A == asm[r].a
      b == asm[r].b
      got == {<<MinX + j * r, MinY + i * r, A[i, j]>> : <<i, j>> \in {p \in (0..H[r] - 1) \X (0..W[r] - 1) : A[p[1], p[2]] # NoData}}
      trimmed == {<<MinX + (b.cmin + j) * r, MinY + (b.rmin + i) * r, A[b.rmin + i, b.cmin + j]>> :
                    <<i, j>> \in {p \in (0..b.rmax - b.rmin - 1) \X (0..b.cmax - b.cmin - 1) : A[b.rmin + p[1], b.cmin + p[2]] # NoData}}
      want == {<<w[1], w[2], Value(w)>> : w \in world[r]}
  IN got = want /\ trimmed = want
\* trimmed as far as possible
Tight == asm = <<>> \/ \A r \in Ress : world[r] # {} =>
  LET b == asm[r].b IN
  /\ MinX + b.cmin * r = SetMin({w[1] : w \in world[r]}) /\ MinX + b.cmax * r = SetMax({w[1] : w \in world[r]}) + r
  /\ MinY + b.rmin * r = SetMin({w[2] : w \in world[r]}) /\ MinY + b.rmax * r = SetMax({w[2] : w \in world[r]}) + r
=============================================================================
