------------------------------ MODULE BathyGrow ------------------------------
(***************************************************************************)
(* How a grid that may grow keeps its tiles in place: the extents are      *)
(* enlarged to whole tiles, a new array of tiles is built, the old array   *)
(* is put down in it at the position of its first corner, in the order of  *)
(* the rows, and each new sounding goes to the tile between whose edges it *)
(* lies.  Tiles that lose their last sounding leave a hole; a grid without *)
(* any tile starts again.                                                  *)
(* BUG plants a mistake, "" is the mechanism as it is.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS T, OX, OY,  \* tile size and origin of the lattice
          XS, YS,     \* coordinates that soundings may have
          MaxAdd,     \* soundings in one addition
          MaxOps,
          BUG

VARIABLES g, have, n
vars == <<g, have, n>>

None == [org |-> <<>>, pts |-> {}]
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Floor(v, o) == IF BUG = "truncates" THEN (IF v - o >= 0 THEN ((v - o) \div T) * T + o ELSE -((o - v) \div T) * T + o)
               ELSE IF BUG = "origin_ignored" THEN (v \div T) * T
               ELSE ((v - o) \div T) * T + o
CeilUp(v, o) == LET c == -((-(v - o)) \div T) * T + o IN IF BUG = "upper_not_strict" THEN c ELSE IF c = v THEN c + T ELSE c
Empty(x) == \A k \in DOMAIN x.tiles : x.tiles[k] = None

Points == XS \X YS
Pool == {S \in SUBSET Points : Cardinality(S) \in 1..MaxAdd}

\* a fresh array over the extents
Build(e) ==
  LET w == (e.maxx - e.minx) \div T
      h == (e.maxy - e.miny) \div T
  IN [minx |-> e.minx, miny |-> e.miny, maxx |-> e.maxx, maxy |-> e.maxy, w |-> w, h |-> h,
      tiles |-> [k \in 0..(w * h - 1) |-> None]]
Adjust(e) == [minx |-> Floor(e.minx, OX), miny |-> Floor(e.miny, OY), maxx |-> CeilUp(e.maxx, OX), maxy |-> CeilUp(e.maxy, OY)]
\* position (row, column) of flat index k in an array of w columns
Row(k, w) == k \div w
Col(k, w) == k % w
\* put the old array down in the new one; the mask is a block of cells, read row by row like the old array
Place(old, new) ==
  LET r0 == (old.miny - new.miny) \div T
      c0 == (old.minx - new.minx) \div T
      a == IF BUG = "corner_swapped" THEN c0 ELSE r0
      b == IF BUG = "corner_swapped" THEN r0 ELSE c0
      hh == IF BUG = "shape_swapped" THEN old.w ELSE old.h
      ww == IF BUG = "shape_swapped" THEN old.h ELSE old.w
      block == {k \in DOMAIN new.tiles : Row(k, new.w) >= a /\ Row(k, new.w) < a + hh /\ Col(k, new.w) >= b /\ Col(k, new.w) < b + ww}
      rank(k) == Cardinality({j \in block : j < k})
      from(k) == IF BUG = "column_order" THEN LET i == rank(k) IN (i % old.h) * old.w + (i \div old.h) ELSE rank(k)
  IN [new EXCEPT !.tiles = [k \in DOMAIN new.tiles |-> IF k \in block /\ from(k) \in DOMAIN old.tiles THEN old.tiles[from(k)] ELSE None]]
\* the tile of a sounding, between its edges
Bin(x, p) ==
  LET edge(v, lo, cnt) == Cardinality({i \in 0..cnt : IF BUG = "edge_left" THEN lo + i * T < v ELSE lo + i * T <= v}) - 1
      c == edge(p[1], x.minx, x.w)
      r == edge(p[2], x.miny, x.h)
  IN IF x.w = 1 /\ x.h = 1 THEN 0 ELSE IF BUG = "index_swapped" THEN c * x.h + r ELSE r * x.w + c
Org(x, k) == <<x.minx + Col(k, x.w) * T, x.miny + Row(k, x.w) * T>>
Put(x, S) ==
  LET at(k) == {p \in S : Bin(x, p) = k}
  IN [x EXCEPT !.tiles = [k \in DOMAIN x.tiles |-> IF at(k) = {} THEN x.tiles[k]
                                                   ELSE [org |-> IF x.tiles[k] = None THEN Org(x, k) ELSE x.tiles[k].org, pts |-> x.tiles[k].pts \cup at(k)]]]

Add(S) ==
  LET xs == {p[1] : p \in S}
      ys == {p[2] : p \in S}
      box == [minx |-> MinOf(xs), miny |-> MinOf(ys), maxx |-> MaxOf(xs), maxy |-> MaxOf(ys)]
      fresh == g.w = 0 \/ Empty(g)
      e == IF fresh THEN box
           ELSE [minx |-> Min2(box.minx, g.minx), miny |-> Min2(box.miny, g.miny),
                 maxx |-> IF BUG = "maximum_replaced" THEN box.maxx ELSE Max2(box.maxx, g.maxx), maxy |-> Max2(box.maxy, g.maxy)]
      new == Build(Adjust(e))
      placed == IF fresh THEN new ELSE Place(g, new)
  IN g' = Put(placed, S) /\ have' = have \cup S
Remove(S) ==
  LET left(t) == t.pts \ S
  IN /\ g' = [g EXCEPT !.tiles = [k \in DOMAIN g.tiles |-> IF g.tiles[k] = None \/ g.tiles[k].pts \cap S = {} THEN g.tiles[k]
                                                           ELSE IF left(g.tiles[k]) = {} /\ BUG # "hole_keeps_tile" THEN None
                                                           ELSE [g.tiles[k] EXCEPT !.pts = left(g.tiles[k])]]]
     /\ have' = have \ S

Init == g = [minx |-> 0, miny |-> 0, maxx |-> 0, maxy |-> 0, w |-> 0, h |-> 0, tiles |-> <<>>] /\ have = {} /\ n = 0
DoAdd == \E S \in Pool : S \cap have = {} /\ Add(S)
DoRemove == \E S \in SUBSET have : S # {} /\ Remove(S)
Next == n < MaxOps /\ n' = n + 1 /\ (DoAdd \/ DoRemove)
Spec == Init /\ [][Next]_vars

\* the lattice cell of a sounding, said without arrays
Cell(p) == <<((p[1] - OX) \div T) * T + OX, ((p[2] - OY) \div T) * T + OY>>
InPlace == \A k \in DOMAIN g.tiles : g.tiles[k] # None => g.tiles[k].org = Org(g, k) /\ (g.tiles[k].org[1] - OX) % T = 0 /\ (g.tiles[k].org[2] - OY) % T = 0
Once == /\ \A p \in have : Cardinality({k \in DOMAIN g.tiles : p \in g.tiles[k].pts}) = 1
        /\ \A k \in DOMAIN g.tiles : g.tiles[k].pts \subseteq have /\ (g.tiles[k] # None => g.tiles[k].pts # {})
Covered == \A k \in DOMAIN g.tiles : \A p \in g.tiles[k].pts : Cell(p) = g.tiles[k].org
Extents == have # {} => /\ (g.minx - OX) % T = 0 /\ (g.maxx - OX) % T = 0 /\ (g.miny - OY) % T = 0 /\ (g.maxy - OY) % T = 0
                        /\ g.w * T = g.maxx - g.minx /\ g.h * T = g.maxy - g.miny
                        /\ \A p \in have : g.minx <= p[1] /\ p[1] < g.maxx /\ g.miny <= p[2] /\ p[2] < g.maxy
Inv == InPlace /\ Once /\ Covered /\ Extents
\* a grid only grows while it holds soundings
Grows == [][(have # {} /\ ~Empty(g)) => g'.minx <= g.minx /\ g'.miny <= g.miny /\ g'.maxx >= g.maxx /\ g'.maxy >= g.maxy]_vars
View == <<g, have>>
=============================================================================
