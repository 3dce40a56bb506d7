----------------------------- MODULE BathyChunk ------------------------------
(***************************************************************************)
(* How a grid is handed out in chunks, as used by the exports: the array   *)
(* of tiles is cut to the part that holds tiles, split into nearly equal   *)
(* parts of at most L tiles a side, the tiles of a part that have the      *)
(* resolution are laid into one array, which is turned into the order of   *)
(* rasters and gets the corner of the tiles it holds.                      *)
(* For every array of Rows x Cols places, each of them empty (0), a tile   *)
(* without the resolution (1) or with it (2), every cell of the tiles has  *)
(* to come out once, at its place.                                         *)
(* BUG plants a mistake, "" is the mechanism as it is.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Rows, Cols, Ls, CPT, BUG   \* CPT: cells along one side of a tile

VARIABLES a, len
vars == <<a, len>>

Seqs(S) == S
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Range(s) == {s[i] : i \in DOMAIN s}
CeilDiv(x, y) == (x + y - 1) \div y

\* numpy.array_split of the positions lo..hi into k parts: the first ones are longer by one
Split(lo, hi, k) ==
  LET num == hi - lo + 1
      q == num \div k
      r == num % k
      first(i) == lo + (i - 1) * q + (IF i - 1 < r THEN i - 1 ELSE r)
      size(i) == q + (IF i <= r THEN 1 ELSE 0)
  IN [i \in 1..k |-> first(i)..(first(i) + size(i) - 1)]

Held == {<<r, c>> \in (1..Rows) \X (1..Cols) : a[r][c] # 0}
Has == {<<r, c>> \in Held : a[r][c] = 2}
Crop == LET rs == {p[1] : p \in Held}
            cs == {p[2] : p \in Held}
        IN [r1 |-> MinOf(rs), r2 |-> IF BUG = "crop_exclusive" /\ MaxOf(rs) > MinOf(rs) THEN MaxOf(rs) - 1 ELSE MaxOf(rs), c1 |-> MinOf(cs), c2 |-> MaxOf(cs)]
Parts ==
  LET k == Crop
      h == k.r2 - k.r1 + 1
      w == k.c2 - k.c1 + 1
      nr == IF BUG = "split_floor" THEN (IF h \div len = 0 THEN 1 ELSE h \div len) ELSE CeilDiv(h, len)
      nc == IF BUG = "split_by_rows" THEN CeilDiv(h, len) ELSE CeilDiv(w, len)
      rows == Split(k.r1, k.r2, nr)
      cols == Split(k.c1, k.c2, nc)
      all == {rows[i] \X cols[j] : i \in 1..nr, j \in 1..nc}
      one == {((k.r1)..(k.r2)) \X ((k.c1)..(k.c2))}
      use == IF len >= h /\ len >= w THEN one ELSE all
  IN {p \cap Held : p \in use} \ {{}}

\* the value of cell (i, j) of the tile at (r, c); i counts upwards, j to the right
Val(p, i, j) == <<p[1], p[2], i, j>>
NoData == <<>>
Chunk(part) ==
  LET with == part \cap Has
      base == IF BUG = "corner_of_all" THEN part ELSE with
      r0 == MinOf({p[1] : p \in with})
      c0 == MinOf({p[2] : p \in with})
      h == (MaxOf({p[1] : p \in with}) - r0 + 1) * CPT
      w == (MaxOf({p[2] : p \in with}) - c0 + 1) * CPT
      \* laid out with the rows upwards
      up == [y \in 0..(h - 1) |-> [x \in 0..(w - 1) |->
               LET p == <<r0 + y \div CPT, c0 + x \div CPT>> IN IF p \in with THEN Val(p, y % CPT, x % CPT) ELSE NoData]]
      first == CHOOSE p \in base : \A q \in base : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
      minx == IF BUG = "corner_of_first" THEN (first[2] - 1) * CPT ELSE MinOf({(p[2] - 1) * CPT : p \in base})
      maxy == IF BUG = "corner_of_first" THEN first[1] * CPT ELSE IF BUG = "lowest_top" THEN MinOf({p[1] * CPT : p \in base}) ELSE MaxOf({p[1] * CPT : p \in base})
  IN [minx |-> minx, maxy |-> maxy, w |-> w, h |-> h,
      \* raster order: the first row is the northernmost
      ras |-> [row \in 0..(h - 1) |-> [col \in 0..(w - 1) |->
                 IF BUG = "not_flipped" THEN up[row][col] ELSE IF BUG = "turned_around" THEN up[h - 1 - row][w - 1 - col] ELSE up[h - 1 - row][col]]]]
Chunks == {Chunk(p) : p \in {p \in Parts : p \cap Has # {}}}
\* what a reader of the raster takes each value for: <<x, y>> of the cell in the world
World(ch) == {<<ch.minx + col, ch.maxy - 1 - row, ch.ras[row][col]>> : row \in 0..(ch.h - 1), col \in 0..(ch.w - 1)}
Data(ch) == {e \in World(ch) : e[3] # NoData}
Want == {<<(p[2] - 1) * CPT + j, (p[1] - 1) * CPT + i, Val(p, i, j)>> : p \in Has, i \in 0..(CPT - 1), j \in 0..(CPT - 1)}

Init == a \in [1..Rows -> [1..Cols -> 0..2]] /\ len \in Ls
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Cardinality(Data(x)) + Total(S \ {x})
Complete == Held # {} => /\ UNION {Data(ch) : ch \in Chunks} = Want
                         /\ Total(Chunks) = Cardinality(Want)
\* chunks keep the size that was asked for, and no chunk is empty
Small == Held # {} => \A ch \in Chunks : ch.w <= len * CPT /\ ch.h <= len * CPT /\ Data(ch) # {}
=============================================================================
