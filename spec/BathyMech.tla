------------------------------ MODULE BathyMech ------------------------------
(***************************************************************************)
(* How the code keeps the contract of BathyCore: tiles with one array of   *)
(* soundings, the range of it that each source holds, the cell of each     *)
(* sounding at each resolution (-1 until the next gridding), the layers of *)
(* each resolution and the flag of pending changes; grids of tiles (or of  *)
(* grids of tiles) with their own list of sources, resolutions and         *)
(* algorithm; and the folder, which is written piece by piece: soundings   *)
(* when soundings change, layers when a tile is gridded, metadata each     *)
(* time.  The contract state st runs along, and the invariant is that the  *)
(* mechanism shows exactly the contract, in memory and after reading the   *)
(* folder again.                                                           *)
(*                                                                         *)
(* BUG names a mistake to plant in the mechanism; TLC has to find each of  *)
(* them (harness/selftest.py), "" is the mechanism as it is.               *)
(***************************************************************************)
EXTENDS Bathy

CONSTANTS Disk,   \* the grid has a folder
          BUG

VARIABLES m,      \* the grid in memory: [cont, resl, alg, sub, tile]
          d,      \* the folder: [cont, resl, alg, sub, tile]
          err     \* an operation the contract accepts failed in the mechanism
mvars == <<st, n, m, d, err>>

NOCELL == <<-1, -1>>
Orgs == {Lo[i] : i \in DOMAIN Pts}
TOrgs == {TileOrg(Cfg, o) : o \in Orgs}
\* tiles are visited row after row
RECURSIVE Order(_)
Before(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1])
Order(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S \ {x} : Before(x, y) IN <<x>> \o Order(S \ {x})
Sel(s, keep) == LET k == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : keep[i]) IN [j \in DOMAIN k |-> s[k[j]]]

(***************************************************************************)
(* Tile                                                                    *)
(***************************************************************************)
NewTile == [data |-> <<>>, cont |-> EmptyFn, idx |-> EmptyFn, cells |-> EmptyFn, alg |-> "", pcc |-> FALSE]
TileAdd(t, ids, name) ==
  LET k == Len(t.data) IN
  [t EXCEPT !.cont = Put(t.cont, name, <<k, k + Len(ids)>>),
            !.data = t.data \o ids,
            !.idx = [r \in DOMAIN t.idx |-> IF BUG = "index_not_extended" /\ Len(t.idx[r]) > 0
                                            THEN t.idx[r] \o [j \in DOMAIN ids |-> t.idx[r][1]]
                                            ELSE t.idx[r] \o [j \in DOMAIN ids |-> NOCELL]],
            !.pcc = (BUG # "flag_not_set_on_add")]
TileRemove(t, name) ==
  IF name \notin DOMAIN t.cont THEN t
  ELSE LET a == t.cont[name][1]
           b == t.cont[name][2]
           keep == [i \in DOMAIN t.data |-> ~(a < i /\ i <= b)]
           later(c) == CASE BUG = "no_shift" -> FALSE
                         [] BUG = "shift_strict" -> t.cont[c][1] > b
                         [] BUG = "shift_all" -> TRUE
                         [] OTHER -> t.cont[c][1] >= b
           cut(c) == IF later(c) THEN <<t.cont[c][1] - (b - a), t.cont[c][2] - (b - a)>> ELSE t.cont[c]
       IN [t EXCEPT !.data = Sel(t.data, keep),
                    !.cont = [c \in DOMAIN t.cont \ {name} |-> cut(c)],
                    !.idx = [r \in DOMAIN t.idx |-> IF BUG = "index_not_masked" THEN [i \in 1..(Len(t.data) - (b - a)) |-> t.idx[r][i]] ELSE Sel(t.idx[r], keep)],
                    !.pcc = (BUG # "flag_not_set_on_remove") \/ t.pcc]
TileGrid(t, o, alg, r, clear) ==
  LET cells1 == IF clear /\ BUG # "clear_keeps_layers" THEN EmptyFn ELSE t.cells
      fresh == r \notin DOMAIN cells1 \/ t.alg # alg
      bin(i) == CellOf(o, r, Pts[t.data[i]])
      idx2 == IF r \notin DOMAIN t.idx THEN [i \in DOMAIN t.data |-> bin(i)]
              ELSE [i \in DOMAIN t.data |-> IF t.idx[r][i] = NOCELL THEN bin(i) ELSE t.idx[r][i]]
      occ == {idx2[i] : i \in DOMAIN t.data}
      lay == [c \in occ |-> {t.data[i] : i \in {i \in DOMAIN t.data : idx2[i] = c}}]
      old == IF BUG = "layer_not_reset" /\ ~fresh THEN cells1[r].lay ELSE EmptyFn
      both == [c \in DOMAIN old \cup occ |-> IF c \in occ THEN lay[c] ELSE old[c]]
  IN [t EXCEPT !.cells = Put(cells1, r, [alg |-> IF BUG = "algorithm_kept" /\ t.alg # "" THEN t.alg ELSE alg, lay |-> both]),
               !.idx = Put(t.idx, r, idx2),
               !.alg = alg,
               !.pcc = (BUG = "flag_not_cleared" /\ t.pcc)]

(***************************************************************************)
(* Folder of a tile                                                        *)
(***************************************************************************)
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
SaveMeta(f, t) == [f EXCEPT !.cont = t.cont, !.alg = t.alg, !.pcc = t.pcc]
SavePoints(f, t) == [SaveMeta(f, IF BUG = "flag_not_stored" THEN [t EXCEPT !.pcc = f.pcc] ELSE t)
                       EXCEPT !.data = t.data, !.idx = IF BUG = "points_keep_index" THEN Over(t.idx, f.idx) ELSE Over(f.idx, t.idx)]
SaveLayers(f, t) == [SaveMeta(f, t) EXCEPT !.cells = IF BUG = "old_layers_on_disk" THEN Over(f.cells, t.cells) ELSE t.cells, !.idx = t.idx]
LoadMeta(t, f) == [t EXCEPT !.cont = f.cont, !.alg = f.alg, !.pcc = f.pcc]
\* only indices of resolutions that have layers are read
LoadPoints(t, f) == [LoadMeta(t, f) EXCEPT !.data = f.data, !.idx = Over(t.idx, Restrict(f.idx, DOMAIN f.cells))]
LoadLayers(t, f) == [LoadMeta(t, f) EXCEPT !.cells = Over(t.cells, f.cells), !.idx = Over(t.idx, Restrict(f.idx, DOMAIN f.cells))]
LoadTile(f) == [LoadMeta(NewTile, f) EXCEPT !.data = f.data, !.cells = f.cells, !.idx = Restrict(f.idx, DOMAIN f.cells)]
NewFolder == NewTile

(***************************************************************************)
(* Grid: its tiles, one after the other; acc = [tile, disk, resl]          *)
(***************************************************************************)
Parts(ids) == {Lo[i] : i \in ids}
IdSeq(ids, o) == SortSet({i \in ids : Lo[i] = o})
RECURSIVE MRest(_, _)
MRest(s, S) == IF s = <<>> THEN <<>> ELSE (IF Head(s) \in S THEN <<Head(s)>> ELSE <<>>) \o MRest(Tail(s), S)
ResOfTile(t) == DOMAIN t.cells
InSub(T, o) == TileOrg(Cfg, o) = T

AddTiles(ids, name) ==
  LET P == Parts(ids)
      old(o) == IF o \in DOMAIN m.tile THEN m.tile[o] ELSE NewTile
      fold(o) == IF o \in DOMAIN d.tile THEN d.tile[o] ELSE NewFolder
      nt == [o \in P |-> TileAdd(old(o), IdSeq(ids, o), name)]
      nf == [o \in P |-> SavePoints(fold(o), nt[o])]
  IN [tile |-> IF Disk THEN [o \in P |-> LoadPoints(nt[o], nf[o])] ELSE nt, fold |-> nf]
MAdd(name, ids) ==
  LET x == AddTiles(ids, name)
      T == {TileOrg(Cfg, o) : o \in Parts(ids)}
      osub(q) == IF q \in DOMAIN m.sub THEN m.sub[q] ELSE [cont |-> {}, resl |-> {}, alg |-> ""]
      nsub == IF Cfg.vr THEN Over(m.sub, [q \in T |-> [osub(q) EXCEPT !.cont = @ \cup {name}]]) ELSE m.sub
      m2 == [m EXCEPT !.cont = @ \cup {name}, !.tile = Over(m.tile, x.tile), !.sub = nsub]
  IN /\ m' = m2
     /\ d' = IF ~Disk THEN d ELSE [cont |-> m2.cont, resl |-> m2.resl, alg |-> m2.alg, tile |-> Over(d.tile, x.fold),
                                   \* the folder of a sub grid stays when it was emptied, its metadata is written again
                                   sub |-> Over(d.sub, [q \in (IF Cfg.vr THEN T ELSE {}) |-> nsub[q]])]

MRemove(name) ==
  IF name \notin m.cont THEN UNCHANGED <<m, d>>
  ELSE LET touched == {o \in DOMAIN m.tile : name \in DOMAIN m.tile[o].cont /\ (~Cfg.vr \/ name \in m.sub[TileOrg(Cfg, o)].cont)}
           after == [o \in touched |-> TileRemove(m.tile[o], name)]
           gone == {o \in touched : after[o].data = <<>>}
           saved == [o \in touched \ gone |-> SavePoints(d.tile[o], after[o])]
           nt == IF Disk THEN [o \in touched \ gone |-> LoadPoints(after[o], saved[o])] ELSE [o \in touched \ gone |-> after[o]]
           tile2 == Over(Restrict(m.tile, DOMAIN m.tile \ gone), nt)
           fold2 == Over(Restrict(d.tile, IF BUG = "empty_tile_folder_left" THEN DOMAIN d.tile ELSE DOMAIN d.tile \ gone), saved)
           left(q) == {o \in DOMAIN tile2 : InSub(q, o)}
           subs == {q \in DOMAIN m.sub : name \in m.sub[q].cont}
           sub2 == [q \in DOMAIN m.sub |-> IF q \in subs THEN [m.sub[q] EXCEPT !.cont = @ \ {name}, !.resl = IF BUG = "resolutions_kept" THEN @ ELSE {r \in @ : \E o \in left(q) : r \in ResOfTile(tile2[o])}]
                                           ELSE m.sub[q]]
           sub3 == Restrict(sub2, {q \in DOMAIN sub2 : sub2[q].cont # {}})
           some(r) == IF Cfg.vr THEN \E q \in DOMAIN sub3 : r \in sub3[q].resl ELSE \E o \in DOMAIN tile2 : r \in ResOfTile(tile2[o])
           m2 == [m EXCEPT !.cont = @ \ {name}, !.tile = tile2, !.sub = sub3, !.resl = IF BUG = "resolutions_kept" THEN @ ELSE {r \in @ : some(r)}]
       IN /\ m' = m2
          /\ d' = IF ~Disk THEN d ELSE [cont |-> m2.cont, resl |-> m2.resl, alg |-> m2.alg, tile |-> fold2, sub |-> Over(d.sub, Restrict(sub2, subs))]

\* one run over the tiles of a grid (the whole grid, or one sub grid); carry: a cleared tile lets the next ones be cleared too (a mistake the code once had)
RECURSIVE Run(_, _, _, _, _)
Run(os, a, rr, clear, acc) ==
  IF os = <<>> THEN acc
  ELSE LET o == Head(os)
           t == acc.tile[o]
           upd == a.regrid = "update" /\ ~clear
           skip == upd /\ ~t.pcc
           cl == clear \/ (upd /\ BUG # "update_keeps_layers")
           nt == TileGrid(t, o, a.alg, rr[o], cl)
           f == SaveLayers(acc.fold[o], nt)
           nl == IF Disk THEN LoadLayers(nt, f) ELSE nt
           acc2 == IF skip THEN [acc EXCEPT !.resl = IF BUG = "skipped_resolutions_lost" THEN @ ELSE @ \cup ResOfTile(t)]
                   ELSE [acc EXCEPT !.tile[o] = nl, !.fold = IF Disk THEN Put(@, o, f) ELSE @, !.resl = @ \cup {rr[o]}]
       IN Run(Tail(os), a, rr, IF BUG = "clear_carries_over" THEN (clear \/ (upd /\ ~skip)) ELSE clear, acc2)
Tiles0 == [tile |-> m.tile, fold |-> d.tile, resl |-> {}]
\* sub grids of a variable resolution grid: those without changes are skipped as a whole in an update run
RECURSIVE RunSubs(_, _, _, _)
RunSubs(qs, a, rr, acc) ==
  IF qs = <<>> THEN acc
  ELSE LET q == Head(qs)
           os == Order({o \in DOMAIN acc.tile : InSub(q, o)})
           upd == a.regrid = "update" /\ ~a.clear
           changed == \E o \in Rng(os) : acc.tile[o].pcc
           x == Run(os, a, rr, a.clear, [acc EXCEPT !.resl = {}])
           bad == acc.sub[q].alg # "" /\ acc.sub[q].alg # a.alg /\ ~a.clear
           acc2 == IF upd /\ ~changed THEN [acc EXCEPT !.resl = @ \cup acc.sub[q].resl]
                   ELSE [acc EXCEPT !.tile = x.tile, !.fold = x.fold, !.resl = acc.resl \cup x.resl, !.bad = @ \/ bad,
                                    !.sub[q] = [acc.sub[q] EXCEPT !.alg = a.alg, !.resl = x.resl], !.dsub = IF Disk THEN Put(acc.dsub, q, [acc.sub[q] EXCEPT !.alg = a.alg, !.resl = x.resl]) ELSE acc.dsub]
       IN RunSubs(Tail(qs), a, rr, acc2)
MGrid(a, rr) ==
  LET x == IF Cfg.vr THEN RunSubs(Order(DOMAIN m.sub), a, rr, Tiles0 @@ [sub |-> m.sub, dsub |-> d.sub, bad |-> FALSE])
           ELSE Run(Order(DOMAIN m.tile), a, rr, a.clear, Tiles0) @@ [sub |-> m.sub, dsub |-> d.sub, bad |-> FALSE]
      m2 == [m EXCEPT !.tile = x.tile, !.sub = x.sub, !.resl = x.resl, !.alg = a.alg]
  IN /\ m' = m2
     /\ err' = x.bad
     /\ d' = IF ~Disk THEN d ELSE [cont |-> m2.cont, resl |-> m2.resl, alg |-> m2.alg, tile |-> x.fold, sub |-> x.dsub]

(***************************************************************************)
(* Reading the folder                                                      *)
(***************************************************************************)
Loaded ==
  LET keep == IF Cfg.vr THEN {q \in DOMAIN d.sub : d.sub[q].cont # {}} ELSE {}
      os == {o \in DOMAIN d.tile : Cfg.vr => (TileOrg(Cfg, o) \in keep)}
  IN [cont |-> d.cont, resl |-> d.resl, alg |-> d.alg, sub |-> Restrict(d.sub, keep), tile |-> [o \in os |-> LoadTile(d.tile[o])]]
MReload == Disk /\ d.cont # {} /\ m' = Loaded /\ UNCHANGED d

(***************************************************************************)
(* What the mechanism shows                                                *)
(***************************************************************************)
Show(g) ==
  [names |-> g.cont,
   owned |-> [name \in g.cont |-> UNION {IF name \in DOMAIN g.tile[o].cont THEN {g.tile[o].data[k] : k \in (g.tile[o].cont[name][1] + 1)..(g.tile[o].cont[name][2])} ELSE {} : o \in DOMAIN g.tile}],
   count |-> [o \in DOMAIN g.tile |-> Len(g.tile[o].data)],
   pend |-> [o \in DOMAIN g.tile |-> g.tile[o].pcc],
   grids |-> [o \in DOMAIN g.tile |-> g.tile[o].cells]]
Layer(o, r, ids) == LET c == {CellOf(o, r, Pts[i]) : i \in ids} IN [k \in c |-> {i \in ids : CellOf(o, r, Pts[i]) = k}]
Want ==
  [names |-> DOMAIN st.src,
   owned |-> [name \in DOMAIN st.src |-> st.src[name].ids],
   count |-> [o \in DOMAIN st.leaf |-> Cardinality(IdsIn(st, Lo, o))],
   pend |-> [o \in DOMAIN st.leaf |-> st.leaf[o].pend],
   grids |-> [o \in DOMAIN st.leaf |-> [r \in DOMAIN st.leaf[o].g |-> [alg |-> st.leaf[o].g[r].alg, lay |-> Layer(o, r, st.leaf[o].g[r].ids)]]]]
\* a source that is there owns the ranges of its soundings, in a readable place
Readable(g) == \A o \in DOMAIN g.tile : \A c \in DOMAIN g.tile[o].cont : 0 <= g.tile[o].cont[c][1] /\ g.tile[o].cont[c][1] < g.tile[o].cont[c][2] /\ g.tile[o].cont[c][2] <= Len(g.tile[o].data)
InMemory == Readable(m) /\ IF Readable(m) THEN Show(m) = Want ELSE FALSE
OnDisk == Disk => IF st.src = EmptyFn THEN d.cont = {} /\ Loaded.tile = EmptyFn ELSE Readable(Loaded) /\ Show(Loaded) = Want /\ Loaded.resl = m.resl /\ Loaded.alg = m.alg
Resl == ReslFaults(st, SortSet(m.resl)) = {}
NoError == ~err
\* a cell index that was computed is the right one, whatever happened since
Indices == \A o \in DOMAIN m.tile : \A r \in DOMAIN m.tile[o].idx :
             /\ Len(m.tile[o].idx[r]) = Len(m.tile[o].data)
             /\ \A k \in DOMAIN m.tile[o].data : m.tile[o].idx[r][k] \in {NOCELL, CellOf(o, r, Pts[m.tile[o].data[k]])}

MInit == Init /\ m = [cont |-> {}, resl |-> {}, alg |-> "", sub |-> EmptyFn, tile |-> EmptyFn] /\ d = m /\ err = FALSE
DoAddM == \E name \in DOMAIN Srcs : \E ids \in Srcs[name] : \E me \in AddMeta :
            /\ ~AddRefused(st, AddArgs(name, ids, me, ""))
            /\ Add(name, ids, me, "") /\ MAdd(name, ids) /\ UNCHANGED err
DoRemM == \E name \in DOMAIN st.src : Remove(name) /\ MRemove(name) /\ UNCHANGED err
DoGridWith(a) ==
            /\ ~GridRefused(Cfg, st, a)
            /\ \E rr \in Choices(a) :
                 LET all == [o \in DOMAIN st.leaf |-> IF o \in DOMAIN rr THEN rr[o] ELSE IF a.res # 0 THEN a.res ELSE 16] IN
                 /\ st' = LET s2 == DoGrid(Cfg, Pts, st, Lo, a, rr, "") IN [s2 EXCEPT !.resl = SortSet(Held(s2))]
                 /\ MGrid(a, all)
DoGridM == \E a \in GridOps : DoGridWith(a)
DoReloadM == MReload /\ UNCHANGED <<st, err>>
MNext == n < MaxOps /\ n' = n + 1 /\ (DoAddM \/ DoRemM \/ DoGridM \/ DoReloadM)
MSpec == MInit /\ [][MNext]_mvars
MInv == InMemory /\ OnDisk /\ Resl /\ NoError /\ Indices
=============================================================================
