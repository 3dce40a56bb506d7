------------------------------ MODULE MCFolder ------------------------------
(***************************************************************************)
(* The mechanism behind BathyFolder, run side by side with the contract.   *)
(* A root on disk is metadata (the extents lo..hi of the tiles) and one    *)
(* folder for each tile; adding writes the metadata and the tile that it   *)
(* touches, saving writes all of them, opening reads the tiles within the  *)
(* extents.  Soundings are numbers, sounding i falls in tile Place[i].     *)
(* Folders are <<name, k>>: k = 0 the folder of that name, k > 0 the new   *)
(* ones next to it.                                                        *)
(* BUG plants one mistake in the mechanism (harness/selftest.py).          *)
(***************************************************************************)
EXTENDS BathyFolder, TLCExt

CONSTANTS Names, Types, Handles, Place, MaxOps, MaxNew, BUG
ThreePlaces == <<2, 0, 1>>
TwoPlaces == <<0, 2>>

VARIABLES s, m, ok, n
vars == <<s, m, ok, n>>
View == <<s, m, ok>>

Ids == DOMAIN Place
NoTiles == [lo |-> 9, hi |-> -1, tiles |-> EmptyFn]
Holds(d) == UNION {d.tiles[p] : p \in DOMAIN d.tiles}
\* what a reader finds: the tiles within the extents
Reads(d) == [d EXCEPT !.tiles = Restrict(@, d.lo..d.hi)]
Folder(D) == IF D \in DOMAIN m.fs THEN m.fs[D] ELSE NoFolder
\* ways the code looks at a folder
Listing(D) == Cardinality(DOMAIN Folder(D).roots) + (IF Folder(D).junk THEN 1 ELSE 0)
MTaken(D) == D \in DOMAIN m.fs /\ BUG # "create_empties_the_folder" /\ (IF BUG = "takes_folder_with_a_file" THEN DOMAIN Folder(D).roots # {} ELSE Listing(D) > 0)
Next1(D) == LET k == CHOOSE k \in 1..MaxNew : <<D[1], k>> \notin DOMAIN m.fs /\ \A j \in 1..(k - 1) : <<D[1], j>> \in DOMAIN m.fs IN <<D[1], k>>
MCan(D) == /\ D \in DOMAIN m.fs
           /\ IF BUG = "opens_the_first_root" THEN DOMAIN Folder(D).roots # {} ELSE Cardinality(DOMAIN Folder(D).roots) = 1
MIs(D) == IF BUG = "any_content_is_a_grid" THEN D \in DOMAIN m.fs /\ Listing(D) > 0 ELSE D \in DOMAIN m.fs /\ DOMAIN Folder(D).roots # {}

MWrite(mm, D, typ, d) == LET f == IF D \in DOMAIN mm.fs THEN mm.fs[D] ELSE NoFolder IN [mm EXCEPT !.fs = Put(@, D, [f EXCEPT !.roots = Put(@, typ, d)])]
\* metadata and the one tile that changed
MTouch(mm, x, p) ==
  LET g == mm.h[x]
      old == IF g.home \in DOMAIN mm.fs /\ g.typ \in DOMAIN mm.fs[g.home].roots THEN mm.fs[g.home].roots[g.typ] ELSE NoTiles
      t == IF p \in DOMAIN g.d.tiles THEN Put(old.tiles, p, g.d.tiles[p])
           ELSE IF BUG = "removed_tile_stays" THEN old.tiles ELSE Restrict(old.tiles, DOMAIN old.tiles \ {p})
      lo == IF BUG = "extents_not_written" /\ old.hi >= 0 THEN old.lo ELSE g.d.lo
      hi == IF BUG = "extents_not_written" /\ old.hi >= 0 THEN old.hi ELSE g.d.hi
  IN IF g.home = Nowhere THEN mm ELSE MWrite(mm, g.home, g.typ, [lo |-> lo, hi |-> hi, tiles |-> t])
\* metadata and all tiles: those that are there are written, those that are not are cleared, and so is what another grid left outside of the extents
MSaved(d, old) ==
  LET written == [p \in DOMAIN d.tiles |-> d.tiles[p]]
      kept == CASE BUG = "leftover_tiles" -> DOMAIN old.tiles \ (d.lo..d.hi)
                [] BUG = "holes_not_cleared" -> (DOMAIN old.tiles \ DOMAIN d.tiles) \cap (d.lo..d.hi)
                [] OTHER -> {}
  IN [lo |-> d.lo, hi |-> d.hi, tiles |-> [p \in DOMAIN d.tiles \cup kept |-> IF p \in DOMAIN d.tiles THEN written[p] ELSE old.tiles[p]]]

Mem(mm, S) == [mm EXCEPT !.h = Restrict(@, S)]
D0 == {<<N, 0>> : N \in Names}
Fresh == {<<N, k>> : N \in Names, k \in 1..MaxNew}
Free == {x \in Handles : x \notin DOMAIN s.h}
Step == n < MaxOps /\ n' = n + 1
Set(s2, m2, o) == s' = s2 /\ m' = Mem(m2, DOMAIN s2.h) /\ ok' = o

Junk(D) == Set(DoJunk(s, D), [m EXCEPT !.fs = Put(@, D, [Folder(D) EXCEPT !.junk = TRUE])], TRUE)
Rm(D) == Has(s, D) /\ Set(DoRm(s, D), [m EXCEPT !.fs = Restrict(@, DOMAIN @ \ {D})], TRUE)
Create(x, D, typ) ==
  /\ D # Nowhere /\ MTaken(D) => \E k \in 1..MaxNew : <<D[1], k>> \notin DOMAIN m.fs
  /\ LET home == IF D = Nowhere THEN Nowhere ELSE IF MTaken(D) THEN Next1(D) ELSE D
         m1 == IF home = Nowhere THEN m
               ELSE [m EXCEPT !.fs = Put(@, home, IF BUG = "create_empties_the_folder" \/ home \notin DOMAIN m.fs THEN NoFolder ELSE m.fs[home])]
     IN Set(DoCreate(s, x, typ, {}, home), [m1 EXCEPT !.h = Put(@, x, [typ |-> typ, home |-> home, d |-> NoTiles])], HomeOk(s, D, home))
AddTo(x, i) ==
  /\ i \notin UNION {s.h[y].val : y \in DOMAIN s.h} \cup UNION {UNION {s.fs[D].roots[t] : t \in DOMAIN s.fs[D].roots} : D \in DOMAIN s.fs}
  /\ LET d == m.h[x].d
         p == Place[i]
         d2 == [lo |-> Mn(d.lo, p), hi |-> Mx(d.hi, p), tiles |-> Put(d.tiles, p, {i} \cup (IF p \in DOMAIN d.tiles THEN d.tiles[p] ELSE {}))]
     IN Set(DoHold(s, x, s.h[x].val \cup {i}), MTouch([m EXCEPT !.h[x].d = d2], x, p), TRUE)
RemoveFrom(x, i) ==
  /\ i \in s.h[x].val
  /\ LET d == m.h[x].d
         p == Place[i]
         left == d.tiles[p] \ {i}
         d2 == [d EXCEPT !.tiles = IF left = {} THEN Restrict(@, DOMAIN @ \ {p}) ELSE Put(@, p, left)]
     IN Set(DoHold(s, x, s.h[x].val \ {i}), MTouch([m EXCEPT !.h[x].d = d2], x, p), TRUE)
Save(x, D) ==
  LET g == m.h[x]
      old == IF g.typ \in DOMAIN Folder(D).roots THEN Folder(D).roots[g.typ] ELSE NoTiles
      m1 == MWrite(m, D, g.typ, MSaved(g.d, old))
      m2 == CASE BUG = "save_leaves_home" -> m1
              [] BUG = "save_moves" /\ g.home # Nowhere /\ g.home # D -> [m1 EXCEPT !.h[x].home = D, !.fs[g.home].roots = Restrict(@, DOMAIN @ \ {g.typ})]
              [] BUG = "save_clears_folder" -> [m1 EXCEPT !.h[x].home = D, !.fs[D].roots = Restrict(@, {g.typ})]
              [] OTHER -> [m1 EXCEPT !.h[x].home = D]
  IN Set(DoSave(s, x, D), m2, TRUE)
Open(x, D) ==
  IF MCan(D) # CanOpen(s, D) THEN Set(s, m, FALSE)
  ELSE /\ CanOpen(s, D)
       /\ LET typ == CHOOSE y \in DOMAIN Folder(D).roots : TRUE
          IN Set(DoOpen(s, x, D), [m EXCEPT !.h = Put(@, x, [typ |-> typ, home |-> D, d |-> Reads(Folder(D).roots[typ])])], TRUE)

Close(x) == Set(Forget(s, {x}), m, TRUE)

Init == s = FInit /\ m = [fs |-> EmptyFn, h |-> EmptyFn] /\ ok = TRUE /\ n = 0
Next ==
  /\ ok
  /\ Step
  /\ \/ \E D \in D0 : Junk(D) \/ Rm(D)
     \/ \E x \in Free : \E D \in D0 \cup {Nowhere} : \E typ \in Types : x = SetMin(Free) /\ Create(x, D, typ)
     \/ \E x \in DOMAIN s.h : \E i \in Ids : AddTo(x, i) \/ RemoveFrom(x, i)
     \/ \E x \in DOMAIN s.h : \E D \in D0 : Save(x, D)
     \/ \E x \in DOMAIN s.h : Close(x)
     \/ \E x \in Free : \E D \in D0 \cup Fresh : x = SetMin(Free) /\ Open(x, D)
Spec == Init /\ [][Next]_vars

\* refusals and places of new grids as in the contract
Outcomes == ok
SameFolders == DOMAIN m.fs = DOMAIN s.fs /\ \A D \in DOMAIN s.fs : m.fs[D].junk = s.fs[D].junk /\ DOMAIN m.fs[D].roots = DOMAIN s.fs[D].roots /\ MIs(D) = IsGrid(s, D)
\* what a fresh process reads, and what the open grids hold
SameContent == \A D \in DOMAIN s.fs : \A t \in DOMAIN s.fs[D].roots : t \in DOMAIN Folder(D).roots => Holds(Reads(Folder(D).roots[t])) = s.fs[D].roots[t]
SameGrids == \A x \in DOMAIN s.h : Holds(m.h[x].d) = s.h[x].val /\ m.h[x].home = s.h[x].home
\* no tile on disk that is not part of its grid: it would become a part of it as soon as the grid grows
NoLeftovers == \A D \in DOMAIN m.fs : \A t \in DOMAIN m.fs[D].roots : DOMAIN m.fs[D].roots[t].tiles \subseteq m.fs[D].roots[t].lo..m.fs[D].roots[t].hi
=============================================================================
