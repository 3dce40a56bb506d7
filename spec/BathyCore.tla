------------------------------ MODULE BathyCore ------------------------------
(***************************************************************************)
(* The contract of a bathygrid: what a grid of soundings is, what each     *)
(* operation (add, remove, grid, reload, save, query) does to it and which *)
(* answers a query may give.  Pure operators only; the state machines that *)
(* use them are Bathy.tla (checked exhaustively with small constants),     *)
(* BathyMech.tla (the code-grain mechanism), Gen.tla (histories to replay  *)
(* into the code) and TraceBathy.tla (histories recorded from the code).   *)
(*                                                                         *)
(* Units: coordinates and resolutions are integers in 1/16 m, values are   *)
(* integers in mm.  Half-open squares are [min, min+size).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NONE == -999999999      \* no data
UNIT == 16              \* coordinate units per metre

Rng(s) == {s[i] : i \in DOMAIN s}
Abs(n) == IF n < 0 THEN -n ELSE n
Mn(a, b) == IF a <= b THEN a ELSE b
Mx(a, b) == IF a >= b THEN a ELSE b
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(f, S \ {x})
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Last(s) == s[Len(s)]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Restrict(f, S) == [x \in DOMAIN f \cap S |-> f[x]]
EmptyFn == [x \in {} |-> 0]

(***************************************************************************)
(* Geometry                                                                *)
(***************************************************************************)
LatOrg(v, o, S) == ((v - o) \div S) * S + o
\* origin of the leaf tile (tile, or sub tile in a variable resolution grid) that covers a point
LeafOrg(cfg, p) == <<LatOrg(p[1], cfg.ox, cfg.S), LatOrg(p[2], cfg.oy, cfg.S)>>
\* origin of the top level tile a leaf lies in
TileOrg(cfg, o) == <<LatOrg(o[1], cfg.ox, cfg.T), LatOrg(o[2], cfg.oy, cfg.T)>>
\* row (y) and column (x) of the cell of a leaf in which a point falls
CellOf(o, r, p) == <<(p[2] - o[2]) \div r, (p[1] - o[1]) \div r>>
IsPow2(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768}

(***************************************************************************)
(* Resolution tables (grid_variables.depth_resolution_lookup)              *)
(***************************************************************************)
DepthKey == <<10, 20, 40, 60, 80, 160, 320, 640, 1280, 2560, 5120, 10240, 20480>>   \* metres
ResOpt == <<4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384>>         \* 1/16 m
\* first table entry whose depth is greater than m (mm), the last one for anything deeper
LookupGT(m) == LET S == {k \in 1..13 : DepthKey[k] * 1000 > m} IN IF S = {} THEN ResOpt[13] ELSE ResOpt[SetMin(S)]
\* first table entry whose depth is not less than m (mm)
LookupGE(m) == LET S == {k \in 1..13 : DepthKey[k] * 1000 >= m} IN IF S = {} THEN ResOpt[13] ELSE ResOpt[SetMin(S)]
\* values (mm) that may stand for a mean in a table lookup.  The grid's own mean depth is rounded to the millimetre:
MeanRounded(sum, cnt) == LET q == sum \div cnt  m == 2 * (sum % cnt) IN IF m < cnt THEN {q} ELSE IF m > cnt THEN {q + 1} ELSE {q, q + 1}
\* that of a tile is a floating point number: a whole millimetre is only exact when the soundings are exact in binary (multiples of 1/8 m)
Exact(pts, ids) == \A i \in ids : pts[i][3] % 125 = 0
MeanBelow(pts, ids, sum, cnt) == LET q == sum \div cnt IN IF sum % cnt # 0 \/ Exact(pts, ids) THEN {q} ELSE {q - 1, q}    \* for "greater than the mean"
MeanAbove(pts, ids, sum, cnt) == LET q == sum \div cnt IN IF sum % cnt # 0 THEN {q + 1} ELSE IF Exact(pts, ids) THEN {q} ELSE {q, q + 1}
SumZ(pts, ids) == SumF([i \in ids |-> pts[i][3]], ids)
GridDepthRes(pts, ids, cap) == {Mn(cap, LookupGT(m)) : m \in MeanRounded(SumZ(pts, ids), Cardinality(ids))}
LeafDepthRes(pts, ids, cap) == {Mn(cap, LookupGT(m)) : m \in MeanBelow(pts, ids, SumZ(pts, ids), Cardinality(ids))}

RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(n, lo, hi) == IF hi - lo <= 1 THEN lo
                      ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN ISqrtIn(n, m, hi) ELSE ISqrtIn(n, lo, m)
ISqrt(n) == ISqrtIn(n, 0, 46340)
FirstGE(num, den) == \* first resolution option r with r * den >= num
  LET S == {k \in 1..13 : ResOpt[k] * den >= num} IN IF S = {} THEN ResOpt[13] ELSE ResOpt[SetMin(S)]
\* the density estimate of one leaf tile of size S holding the soundings ids (tile.resolution_by_density)
DensityRes(pts, ids, o, S) ==
  LET start == Mn(S, 256)
      ncell == (S \div start) * (S \div start)
      cell == [i \in ids |-> CellOf(o, start, pts[i])]
      occ == {cell[i] : i \in ids}
      cnt == [c \in occ |-> Cardinality({i \in ids : cell[i] = c})]
      N == Cardinality(ids)
      low == SumF([c \in occ |-> ISqrt(175000 * cnt[c])], occ)    \* 100 * sum of sqrt(17.5 * count)
  IN IF 4 * Cardinality(occ) <= 3 * ncell
     THEN {Mn(S, LookupGE(m)) : m \in MeanAbove(pts, ids, SumZ(pts, ids), N)}
     ELSE {Mn(S, FirstGE(start * low, 100 * N)), Mn(S, FirstGE(start * (low + Cardinality(occ)), 100 * N))}

(***************************************************************************)
(* Gridded layers.  A cell is <<row, col, count, depth, tvu, thu, hyp>>;   *)
(* in a grid made with cube tvu is the total uncertainty, thu the          *)
(* hypothesis ratio and hyp the hypothesis count (else 0).                 *)
(***************************************************************************)
\* v is the mean of n values with sum s, to the millimetre (layers are single precision and rounded in it: one ulp is allowed on top)
IsMean(v, s, n) == v # NONE /\ LET d == Abs(v * n - s) IN d <= n /\ 1000 * d <= (520 + Abs(v) \div 8000) * n
F(name, ok) == IF ok THEN {} ELSE {name}
WantLayers(cfg, alg) ==
  {IF cfg.bs THEN "intensity" ELSE "depth", "density"}
  \cup (IF alg = "cube" THEN {"total_uncertainty", "hypothesis_count", "hypothesis_ratio"}
        ELSE (IF cfg.tv THEN {"vertical_uncertainty"} ELSE {}) \cup (IF cfg.th THEN {"horizontal_uncertainty"} ELSE {}))

CellMean(cfg, pts, P, c) ==
  LET n == Cardinality(P) IN
    F("depth", IsMean(c[4], SumF([i \in P |-> pts[i][3]], P), n))
    \cup F("tvu", IF cfg.tv THEN IsMean(c[5], SumF([i \in P |-> pts[i][4]], P), n) ELSE c[5] = NONE)
    \cup F("thu", IF cfg.th THEN IsMean(c[6], SumF([i \in P |-> pts[i][5]], P), n) ELSE c[6] = NONE)
CellShoal(cfg, pts, P, c) ==
  LET m == SetMin({pts[i][3] : i \in P}) IN
    F("depth", c[4] = m)
    \cup F("unc", \E i \in P : pts[i][3] = m /\ c[5] = (IF cfg.tv THEN pts[i][4] ELSE NONE) /\ c[6] = (IF cfg.th THEN pts[i][5] ELSE NONE))

(* cube: the estimator (a stand-in that tells what it was given, harness/standin) sees the soundings of the leaf and those of the neighbours that
   lie within a tenth of the tile's width of its border, and the settings <<method, order, variance>> ("" if not given).  Its answer for a cell is
   the deepest sounding (the shallowest with method "prior"), the uncertainties of that sounding, and a digest of settings and border soundings;
   it gives none for a cell with a single sounding whose depth in mm is a multiple of 5.                                                          *)
NearBorder(p, o, z, d) == \* p lies in the edge neighbour number d of the square at o, at most z / 10 away from it
  LET q == <<LatOrg(p[1] - o[1], 0, z), LatOrg(p[2] - o[2], 0, z)>> IN
  CASE d = 1 -> q = <<0, -z>> /\ 10 * (o[2] - p[2]) <= z
    [] d = 2 -> q = <<z, 0>> /\ 10 * (p[1] - o[1] - z) <= z
    [] d = 3 -> q = <<0, z>> /\ 10 * (p[2] - o[2] - z) <= z
    [] d = 4 -> q = <<-z, 0>> /\ 10 * (o[1] - p[1]) <= z
\* the border soundings of the leaf at o: of the neighbouring tiles, and in a variable resolution grid also of the neighbouring sub tiles of the same tile
Border(cfg, pts, all, o) ==
  LET t == TileOrg(cfg, o) IN
  {i \in all : \/ \E d \in 1..4 : NearBorder(pts[i], t, cfg.T, d)
               \/ cfg.vr /\ TileOrg(cfg, pts[i]) = t /\ \E d \in 1..4 : NearBorder(pts[i], o, cfg.S, d)}
Methods == <<"local", "prior", "posterior", "predict">>
Orders == <<"order1a", "special", "order1b", "order2">>
Variances == <<"cube", "input">>
Code(s, v) == IF v = "" THEN 0 ELSE (CHOOSE k \in DOMAIN s : s[k] = v) - 1
Settings(par) == IF par = <<>> THEN 0 ELSE Code(Methods, par[1]) * 8 + Code(Orders, par[2]) * 2 + Code(Variances, par[3])
Prior(par) == par # <<>> /\ par[1] = "prior"
Digest(pts, b) == SumF([i \in b |-> ((3 * (pts[i][1] % 89) + 5 * (pts[i][2] % 89) + 7 * (pts[i][3] % 89) + 11 * (pts[i][4] % 89) + 13 * (pts[i][5] % 89)) % 89) + 1], b)
Estimable(pts, P) == ~(Cardinality(P) = 1 /\ \A i \in P : pts[i][3] % 5 = 0)
CellCube(pts, P, c, b, par) ==
  LET zs == {pts[i][3] : i \in P}
      m == IF Prior(par) THEN SetMin(zs) ELSE SetMax(zs)
  IN IF ~Estimable(pts, P) THEN F("depth", c[4] = NONE) \cup F("unc", c[5] = NONE /\ c[6] = NONE) \cup F("border", c[7] = 0)
     ELSE F("depth", c[4] = m)
          \cup F("unc", \E i \in P : pts[i][3] = m /\ c[5] = pts[i][4] /\ c[6] = pts[i][5])
          \cup F("settings", c[7] \div 100000 = Settings(par))
          \cup F("border", c[7] % 100000 = 1 + Digest(pts, b))

\* what is wrong with the gridded layers G of the leaf at o, gridded at r with algorithm e.alg from the soundings e.ids and the border soundings e.b
GridFaults(cfg, pts, o, r, e, G) ==
  LET ids == e.ids
      alg == e.alg
      cell == [i \in ids |-> CellOf(o, r, pts[i])]
      occ == {cell[i] : i \in ids}
      cs == Rng(G.cells)
  IN F("shape", G.n * r = cfg.S)
     \cup F("layers", Rng(G.lay) = WantLayers(cfg, alg))
     \cup F("cells", {<<c[1], c[2]>> : c \in cs} = occ)
     \cup UNION {LET P == {i \in ids : cell[i] = <<c[1], c[2]>>} IN
                 IF P = {} THEN {"phantom"}
                 ELSE F("count", c[3] = Cardinality(P)) \cup
                      (CASE alg = "mean" -> CellMean(cfg, pts, P, c)
                         [] alg = "shoalest" -> CellShoal(cfg, pts, P, c)
                         [] alg = "cube" -> CellCube(pts, P, c, e.b, e.par)) \cup F("hyp", alg = "cube" \/ c[7] = 0) : c \in cs}

(***************************************************************************)
(* State.  leaf is a function from the origins of the leaf tiles that hold *)
(* soundings to [pend, cur, g]: pend says that its soundings changed since *)
(* it was last gridded, cur is the resolution of its last gridding (0 if   *)
(* none) and g maps each resolution it holds to the algorithm, soundings,  *)
(* border soundings and settings (a snapshot) that result was computed     *)
(* from, with gi naming the recorded arrays (0: not known yet).            *)
(***************************************************************************)
InitState == [src |-> EmptyFn, leaf |-> EmptyFn, ext |-> <<>>, resl |-> <<>>, alg |-> "", gmode |-> "", epsg |-> 0, vref |-> "", mllw |-> FALSE,
              posup |-> FALSE, mint |-> 0, maxt |-> 0, mids |-> {}, gpar |-> <<>>]
NewLeaf == [pend |-> FALSE, cur |-> 0, g |-> EmptyFn]
AllIds(st) == UNION {st.src[n].ids : n \in DOMAIN st.src}
IdsIn(st, lo, o) == {i \in AllIds(st) : lo[i] = o}
Held(st) == UNION {DOMAIN st.leaf[o].g : o \in DOMAIN st.leaf}
Curs(st) == {st.leaf[o].cur : o \in DOMAIN st.leaf} \ {0}
Pending(st) == \E o \in DOMAIN st.leaf : st.leaf[o].pend

(* ---- add ---- *)
AddRefused(st, a) ==
  \/ a.bad # ""
  \/ a.name \in DOMAIN st.src
  \/ a.epsg # 0 /\ st.epsg # 0 /\ a.epsg # st.epsg
  \/ st.vref # "" /\ st.vref # a.vref /\ ~(st.mllw /\ a.mllw)
DoAdd(st, lo, a) ==
  LET ids == Rng(a.ids)
      touched == {lo[i] : i \in ids}
  IN [st EXCEPT
        !.src = Put(st.src, a.name, [ids |-> ids, files |-> IF a.files = <<>> THEN <<"Unknown">> ELSE a.files]),
        !.leaf = [o \in DOMAIN st.leaf \cup touched |->
                    LET lf == IF o \in DOMAIN st.leaf THEN st.leaf[o] ELSE NewLeaf
                    IN IF o \in touched THEN [lf EXCEPT !.pend = TRUE] ELSE lf],
        !.epsg = IF a.epsg # 0 THEN a.epsg ELSE st.epsg,
        !.vref = a.vref, !.mllw = a.mllw, !.posup = a.posup,
        !.mint = IF a.mint = 0 THEN st.mint ELSE IF st.mint = 0 THEN a.mint ELSE Mn(st.mint, a.mint),
        !.maxt = IF a.maxt = 0 THEN st.maxt ELSE IF st.maxt = 0 THEN a.maxt ELSE Mx(st.maxt, a.maxt),
        !.mids = ids]
\* extents after an addition of soundings inside the box <<minx, miny, maxx, maxy>>
ExtFaults(cfg, old, b, new) ==
  IF Len(new) # 4 THEN {"ext.missing"} ELSE
  F("ext.lattice", (new[1] - cfg.ox) % cfg.T = 0 /\ (new[2] - cfg.oy) % cfg.T = 0 /\ (new[3] - cfg.ox) % cfg.T = 0 /\ (new[4] - cfg.oy) % cfg.T = 0)
  \cup F("ext.cover", new[1] <= b[1] /\ new[2] <= b[2] /\ new[3] > b[3] /\ new[4] > b[4])
  \cup (IF old = <<>>
        THEN F("ext.fresh", new = <<LatOrg(b[1], cfg.ox, cfg.T), LatOrg(b[2], cfg.oy, cfg.T), LatOrg(b[3], cfg.ox, cfg.T) + cfg.T, LatOrg(b[4], cfg.oy, cfg.T) + cfg.T>>)
        ELSE F("ext.shrink", new[1] <= old[1] /\ new[2] <= old[2] /\ new[3] >= old[3] /\ new[4] >= old[4])
             \cup F("ext.lower", new[1] = Mn(old[1], LatOrg(b[1], cfg.ox, cfg.T)) /\ new[2] = Mn(old[2], LatOrg(b[2], cfg.oy, cfg.T))))
Box(pts, ids) == <<SetMin({pts[i][1] : i \in ids}), SetMin({pts[i][2] : i \in ids}), SetMax({pts[i][1] : i \in ids}), SetMax({pts[i][2] : i \in ids})>>

(* ---- create (sizes in metres) ---- *)
MakeRefused(a) == \/ a.gt \notin {"single_resolution", "variable_resolution_tile"}
                  \/ a.be \notin {"numpy", "zarr"}
                  \/ ~IsPow2(a.t)
                  \/ (a.gt = "variable_resolution_tile" /\ ~IsPow2(a.s))
MakeType(a) == (IF a.gt = "single_resolution" THEN "SRGrid" ELSE "VRGridTile") \o (IF a.be = "zarr" THEN "Zarr" ELSE "")

(* ---- remove ---- *)
DoRemove(st, lo, name) ==
  IF name \notin DOMAIN st.src THEN st
  ELSE LET gone == st.src[name].ids
           touched == {lo[i] : i \in gone}
           src2 == Restrict(st.src, DOMAIN st.src \ {name})
           stay == {lo[i] : i \in AllIds(st) \ gone}
           leaf2 == [o \in DOMAIN st.leaf \cap stay |-> IF o \in touched THEN [st.leaf[o] EXCEPT !.pend = TRUE] ELSE st.leaf[o]]
       IN [st EXCEPT !.src = src2, !.leaf = leaf2, !.ext = IF stay = {} THEN <<>> ELSE st.ext, !.resl = IF stay = {} THEN <<>> ELSE st.resl]

(* ---- grid ---- *)
Algs == {"mean", "shoalest", "cube"}
GridRefused(cfg, st, a) ==
  \/ DOMAIN st.leaf = {}
  \/ a.alg \notin Algs
  \/ st.alg # "" /\ a.alg # st.alg /\ ~a.clear
  \/ a.res # 0 /\ ~IsPow2(a.res)
  \/ a.alg = "cube" /\ ~(cfg.tv /\ cfg.th /\ cfg.cube)     \* needs both uncertainties, and the estimator, which is an optional package
  \/ a.res = 0 /\ a.mode \notin {"depth", "density"}
Regridded(st, a) == IF a.regrid = "update" /\ ~a.clear THEN {o \in DOMAIN st.leaf : st.leaf[o].pend} ELSE DOMAIN st.leaf
\* resolutions the automatic choice may give: one for the grid, or one per leaf
AutoSR(cfg, pts, lo, st, mode) ==
  IF mode = "depth" THEN GridDepthRes(pts, st.mids, cfg.T)
  ELSE LET per == [o \in DOMAIN st.leaf |-> DensityRes(pts, IdsIn(st, lo, o), o, cfg.S)]
           lows == {SetMin(per[o]) : o \in DOMAIN st.leaf}
           highs == {SetMax(per[o]) : o \in DOMAIN st.leaf}
       IN {r \in UNION {per[o] : o \in DOMAIN st.leaf} : SetMax(lows) <= r /\ r <= SetMax(highs)}
AutoVR(cfg, pts, lo, st, o, mode) ==
  IF mode = "depth" THEN LeafDepthRes(pts, IdsIn(st, lo, o), cfg.S) ELSE DensityRes(pts, IdsIn(st, lo, o), o, cfg.S)
\* the leaf after it was regridded at r: a cleared or updated leaf keeps nothing else
NewGrid(cfg, pts, st, lo, o, a) ==
  [alg |-> a.alg, ids |-> IdsIn(st, lo, o), gi |-> 0, b |-> IF a.alg = "cube" THEN Border(cfg, pts, AllIds(st), o) ELSE {}, par |-> IF a.alg = "cube" THEN a.par ELSE <<>>]
RegridLeaf(cfg, pts, st, lo, o, a, r) ==
  LET new == NewGrid(cfg, pts, st, lo, o, a)
      old == IF a.clear \/ a.regrid = "update" THEN EmptyFn ELSE st.leaf[o].g
  IN [pend |-> FALSE, cur |-> r, g |-> Put(old, r, new)]
\* rr: function giving the resolution used for each regridded leaf
DoGrid(cfg, pts, st, lo, a, rr, gm) ==
  LET R == Regridded(st, a) IN
  [st EXCEPT !.leaf = [o \in DOMAIN st.leaf |-> IF o \in R THEN RegridLeaf(cfg, pts, st, lo, o, a, rr[o]) ELSE st.leaf[o]],
             !.alg = a.alg, !.gmode = gm, !.gpar = a.par]

\* a reported resolution list is sound: sorted, only resolutions that are held, all those produced last
ReslFaults(st, resl) ==
  F("resl.sorted", Sorted(resl)) \cup F("resl.held", Rng(resl) \subseteq Held(st)) \cup F("resl.all", Curs(st) \subseteq Rng(resl))

(***************************************************************************)
(* Queries                                                                 *)
(***************************************************************************)
\* all gridded cells at resolution r: <<x, y, count, depth, tvu, thu, hyp>> with the lower left corner of the cell
LeafCells(grids, o, r, gi) == IF gi = 0 THEN {} ELSE {<<o[1] + c[2] * r, o[2] + c[1] * r, c[3], c[4], c[5], c[6], c[7]>> : c \in Rng(grids[gi].cells)}
CellsAt(st, grids, r) == UNION {LeafCells(grids, o, r, st.leaf[o].g[r].gi) : o \in {q \in DOMAIN st.leaf : r \in DOMAIN st.leaf[q].g}}
LayIdx(l) == CASE l \in {"depth", "intensity", "elevation"} -> 4 [] l = "density" -> 3 [] l \in {"vertical_uncertainty", "total_uncertainty"} -> 5
               [] l \in {"horizontal_uncertainty", "hypothesis_ratio"} -> 6 [] l = "hypothesis_count" -> 7
Counts == {"density", "hypothesis_count"}
\* the cells that have a value in layer l: all of them, unless the estimator gave none
HasVal(c, l) == c[LayIdx(l)] # (IF l \in Counts THEN 0 ELSE NONE)
LayCells(st, grids, r, l) == {c \in CellsAt(st, grids, r) : HasVal(c, l)}
Val(st, c, l, zpu) == IF l = "depth" /\ st.posup # zpu /\ c[LayIdx(l)] # NONE THEN -c[LayIdx(l)] ELSE c[LayIdx(l)]
\* the entries ent (sequence of <<i, j, v>>) are exactly the set E
Same(ent, E) == Len(ent) = Cardinality(E) /\ Rng(ent) = E
ResOf(st, r) == IF r = 0 THEN st.resl[1] ELSE r

=============================================================================
