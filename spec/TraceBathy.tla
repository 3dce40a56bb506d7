----------------------------- MODULE TraceBathy -----------------------------
(***************************************************************************)
(* Validates histories recorded from the real code (harness/session.py)    *)
(* against the contract in BathyCore.  TRACE names an ndjson file with one *)
(* history per line.  Every event is checked against the ideal state, all  *)
(* failing clauses are printed (MM|trace|event|op|clause) and the history  *)
(* goes on from the ideal state, so that the verdict is total; a history   *)
(* ends early (clause exc or reject) only when the code refused what        *)
(* it had to accept or the other way round.  DONE|trace|events closes it.  *)
(***************************************************************************)
EXTENDS BathyCore, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t,   \* index of the history
          l,   \* next event
          st   \* ideal state
vars == <<t, l, st>>

(* ------------------------------------------------------------------ observations *)
ObsLeaves(ob) == {lf.o : lf \in Rng(ob.leaves)}
ObsLeaf(ob, o) == CHOOSE lf \in Rng(ob.leaves) : lf.o = o
GDom(lf) == {g[1] : g \in Rng(lf.g)}
GIdx(lf, r) == (CHOOSE g \in Rng(lf.g) : g[1] = r)[2]

(* what is wrong with the soundings, tiles, flags and metadata of an observation *)
PointFaults(cfg, pts, lo, s, ob) ==
  LET ol == ObsLeaves(ob)
      ml == DOMAIN s.leaf
      owned(n) == UNION {UNION {Rng(c[2]) : c \in {c \in Rng(lf.c) : c[1] = n}} : lf \in Rng(ob.leaves)}
      names == UNION {{c[1] : c \in Rng(lf.c)} : lf \in Rng(ob.leaves)}
      total == SumF([lf \in Rng(ob.leaves) |-> SumF([c \in Rng(lf.c) |-> Len(c[2])], Rng(lf.c))], Rng(ob.leaves))
  IN F("src.names", [i \in DOMAIN ob.conts |-> ob.conts[i][1]] = [i \in DOMAIN ob.conts |-> ob.conts[i][1]] /\ {c[1] : c \in Rng(ob.conts)} = DOMAIN s.src /\ Len(ob.conts) = Cardinality(DOMAIN s.src))
     \cup F("src.files", \A c \in Rng(ob.conts) : c[1] \in DOMAIN s.src => c[2] = s.src[c[1]].files)
     \cup F("src.unknown", names \subseteq DOMAIN s.src)
     \cup F("src.points", \A n \in DOMAIN s.src : owned(n) = s.src[n].ids)
     \cup F("src.count", total = Cardinality(AllIds(s)) /\ ob.pc = Cardinality(AllIds(s)) /\ \A lf \in Rng(ob.leaves) : lf.n = Cardinality(IdsIn(s, lo, lf.o)))
     \cup F("leaf.set", ol = ml /\ Len(ob.leaves) = Cardinality(ml))
     \cup F("leaf.size", \A lf \in Rng(ob.leaves) : lf.sz = cfg.S)
     \cup F("leaf.place", \A lf \in Rng(ob.leaves) : \A c \in Rng(lf.c) : \A i \in Rng(c[2]) : i \in DOMAIN lo => lo[i] = lf.o)
     \cup F("tile.set", {<<x[1], x[2]>> : x \in Rng(ob.tiles)} = {TileOrg(cfg, o) : o \in ml} /\ Len(ob.tiles) = Cardinality({TileOrg(cfg, o) : o \in ml}) /\ ob.nt = Len(ob.tiles))
     \cup (IF ob.ext = <<>> THEN {} ELSE
           F("tile.place", \A x \in Rng(ob.tiles) : x[1] = ob.ext[1] + x[4] * cfg.T /\ x[2] = ob.ext[2] + x[3] * cfg.T)
           \cup F("tile.shape", ob.shape = <<(ob.ext[4] - ob.ext[2]) \div cfg.T, (ob.ext[3] - ob.ext[1]) \div cfg.T>>)
           \cup F("ext.cover", \A i \in AllIds(s) : ob.ext[1] <= pts[i][1] /\ pts[i][1] < ob.ext[3] /\ ob.ext[2] <= pts[i][2] /\ pts[i][2] < ob.ext[4]))
FlagFaults(s, ob) ==
  F("pend.leaf", \A o \in ObsLeaves(ob) \cap DOMAIN s.leaf : ObsLeaf(ob, o).p = s.leaf[o].pend)
  \cup F("pend.grid", ob.pcc = Pending(s))
MetaFaults(cfg, s, ob) ==
  F("meta.epsg", ob.epsg = s.epsg) \cup F("meta.vref", ob.vref = s.vref) \cup F("meta.time", ob.mint = s.mint /\ ob.maxt = s.maxt)
  \cup F("meta.alg", ob.alg = s.alg) \cup F("meta.mode", ob.gmode = s.gmode) \cup F("meta.bs", ob.bs = cfg.bs) \cup F("meta.size", ob.tsz = cfg.T /\ ob.ssz = cfg.ssz) \cup F("meta.par", ob.gpar = s.gpar)
\* the time at which a source was added stays with it as long as it is there
CtsFaults(s, prev, e) ==
  IF e.obs.err # "" THEN {} ELSE
  F("src.time", /\ {c[1] : c \in Rng(e.obs.cts)} = DOMAIN s.src /\ Len(e.obs.cts) = Cardinality(DOMAIN s.src)
                /\ \A c \in Rng(e.obs.cts) : IF e.op = "add" /\ e.ok /\ c[1] = e.a.name THEN e.a.when[1] <= c[2] /\ c[2] <= e.a.when[2] ELSE c \in Rng(prev))
  \cup (IF e.op # "q" THEN {} ELSE F("attr.added", \A i \in DOMAIN e.a.qs : (e.a.qs[i].q = "attr" /\ e.a.qs[i].ok) => Rng(e.a.qs[i].st) = Rng(e.obs.cts)))
MeanFaults(pts, s, ob) == IF s.mids = {} THEN {} ELSE F("meta.mean", IsMean(ob.mean, SumZ(pts, s.mids), Cardinality(s.mids)))
\* a grid is emptied when its last source is removed: it then reports nothing
LayFaults(cfg, s, ob) ==
  F("lay.names", IF Held(s) = {} THEN ob.lay = <<>> ELSE Rng(ob.lay) = WantLayers(cfg, s.alg))

(* the gridded arrays of all leaves; freshly gridded ones (gi = 0) are recomputed from the soundings, the others must be the arrays already known *)
GridsFaults(cfg, pts, grids, s, ob) ==
  UNION {LET lf == ObsLeaf(ob, o)
             m == s.leaf[o].g IN
         F("g.res", GDom(lf) = DOMAIN m)
         \cup UNION {IF m[r].gi # 0 THEN F("g.kept", GIdx(lf, r) = m[r].gi)
                     ELSE {"g." \o m[r].alg \o "." \o f : f \in GridFaults(cfg, pts, o, r, m[r], grids[GIdx(lf, r)])}
                     : r \in GDom(lf) \cap DOMAIN m}
         : o \in ObsLeaves(ob) \cap DOMAIN s.leaf}
Bind(s, ob) == \* from here on the recorded arrays are the ones known for the leaf
  [s EXCEPT !.ext = ob.ext, !.resl = ob.resl,
            !.leaf = [o \in DOMAIN s.leaf |->
               IF o \notin ObsLeaves(ob) THEN s.leaf[o]
               ELSE LET lf == ObsLeaf(ob, o) IN
                    [s.leaf[o] EXCEPT !.g = [r \in DOMAIN s.leaf[o].g |-> IF r \in GDom(lf) THEN [s.leaf[o].g[r] EXCEPT !.gi = GIdx(lf, r)] ELSE s.leaf[o].g[r]]]]]

CheckObs(cfg, pts, grids, lo, s, ob) ==
  IF ob.err # "" THEN {"obs.unreadable"} ELSE
  PointFaults(cfg, pts, lo, s, ob) \cup FlagFaults(s, ob) \cup MetaFaults(cfg, s, ob) \cup MeanFaults(pts, s, ob) \cup LayFaults(cfg, s, ob)
  \cup GridsFaults(cfg, pts, grids, s, ob) \cup ReslFaults(s, ob.resl)

(* twins: the folder reloaded, a saved copy, the same history with other storage or in parallel *)
AltFaults(e, a) ==
  LET p == "alt_" \o a.k \o "." IN
  IF a.ok # e.ok /\ ~a.rl THEN {p \o "outcome"}
  ELSE IF ~a.ok /\ a.rl THEN {p \o "fails"}
  ELSE IF a.obs.err # "" THEN {p \o "unreadable"}
  ELSE {p \o f : f \in
     F("points", a.obs.leaves = e.obs.leaves \/ [i \in DOMAIN a.obs.leaves |-> <<a.obs.leaves[i].o, a.obs.leaves[i].n, a.obs.leaves[i].c>>]
                                              = [i \in DOMAIN e.obs.leaves |-> <<e.obs.leaves[i].o, e.obs.leaves[i].n, e.obs.leaves[i].c>>])
     \cup F("pend", [i \in DOMAIN a.obs.leaves |-> <<a.obs.leaves[i].o, a.obs.leaves[i].p>>] = [i \in DOMAIN e.obs.leaves |-> <<e.obs.leaves[i].o, e.obs.leaves[i].p>>] /\ a.obs.pcc = e.obs.pcc)
     \cup F("layers", [i \in DOMAIN a.obs.leaves |-> <<a.obs.leaves[i].o, a.obs.leaves[i].g>>] = [i \in DOMAIN e.obs.leaves |-> <<e.obs.leaves[i].o, e.obs.leaves[i].g>>] /\ a.obs.lay = e.obs.lay)
     \cup F("resl", a.obs.resl = e.obs.resl)
     \cup F("sources", a.obs.conts = e.obs.conts /\ (a.k \in {"reload", "saved"} => a.obs.cts = e.obs.cts))
     \cup F("tiles", a.obs.tiles = e.obs.tiles /\ a.obs.nt = e.obs.nt /\ a.obs.shape = e.obs.shape /\ a.obs.pc = e.obs.pc)
     \cup F("ext", a.obs.ext = e.obs.ext)
     \cup F("meta", <<a.obs.epsg, a.obs.vref, a.obs.mint, a.obs.maxt, a.obs.alg, a.obs.gmode, a.obs.bs, a.obs.tsz, a.obs.ssz, a.obs.mean, a.obs.gpar>>
                    = <<e.obs.epsg, e.obs.vref, e.obs.mint, e.obs.maxt, e.obs.alg, e.obs.gmode, e.obs.bs, e.obs.tsz, e.obs.ssz, e.obs.mean, e.obs.gpar>>)
     \cup F("type", a.k \notin {"reload", "saved"} \/ a.obs.typ = e.obs.typ)
     \cup F("query", \A i \in DOMAIN a.qeq : a.qeq[i])}

(* ------------------------------------------------------------------ queries *)
Rel(s, c, r) == <<(c[2] - s.ext[2]) \div r, (c[1] - s.ext[1]) \div r>>
\* expected raster of layer lay over the extents
Raster(s, grids, r, lay, zpu) == {Rel(s, c, r) \o <<Val(s, c, lay, zpu)>> : c \in LayCells(s, grids, r, lay)}
FullShape(s, r) == <<(s.ext[4] - s.ext[2]) \div r, (s.ext[3] - s.ext[1]) \div r>>

QLayer(s, grids, q) ==
  LET r == ResOf(s, q.r) IN
  IF \A k \in DOMAIN q.ls : LayCells(s, grids, r, q.ls[k]) = {} THEN F("layer.empty", q.res.ent = <<>> \/ \A k \in DOMAIN q.res.ent : q.res.ent[k] = <<>>)
  ELSE F("layer.shape", q.res.shape = FullShape(s, r))
       \cup (IF Len(q.res.ent) # Len(q.ls) THEN {"layer.number"} ELSE
             UNION {F("layer.values", Same(q.res.ent[k], Raster(s, grids, r, q.ls[k], q.zpu))) : k \in DOMAIN q.ls})

BoxOf(E) == LET rows == {e[1] : e \in E}  cols == {e[2] : e \in E} IN <<SetMin(rows), SetMin(cols), SetMax(rows), SetMax(cols)>>
TrimFaults(s, grids, q, r, zpu) ==
  LET b == BoxOf(UNION {Raster(s, grids, r, q.ls[k], zpu) : k \in DOMAIN q.ls}) IN
  F("trim.box", q.res.mn = <<b[1], b[2]>> /\ q.res.mx = <<b[3] + 1, b[4] + 1>> /\ q.res.shape = <<b[3] - b[1] + 1, b[4] - b[2] + 1>>)
  \cup (IF Len(q.res.ent) # Len(q.ls) THEN {"trim.number"} ELSE
        UNION {F("trim.values", Same(q.res.ent[k], {<<e[1] - b[1], e[2] - b[2], e[3]>> : e \in Raster(s, grids, r, q.ls[k], zpu)})) : k \in DOMAIN q.ls})
QTrim(s, grids, q) == LET r == ResOf(s, q.r) IN TrimFaults(s, grids, q, r, q.zpu)
QSurf(s, grids, q) ==
  LET r == ResOf(s, q.r)
      b == BoxOf(UNION {Raster(s, grids, r, q.ls[k], FALSE) : k \in DOMAIN q.ls})
      nx == b[4] - b[2] + 1
      ny == b[3] - b[1] + 1
      x0 == s.ext[1] + b[2] * r
      y0 == s.ext[2] + b[1] * r
  IN TrimFaults(s, grids, q, r, FALSE)
     \cup F("trim.coords", IF q.cb THEN q.res.xs = [i \in 1..(nx + 1) |-> 2 * (x0 + (i - 1) * r)] /\ q.res.ys = [i \in 1..(ny + 1) |-> 2 * (y0 + (i - 1) * r)]
                           ELSE q.res.xs = [i \in 1..nx |-> 2 * (x0 + (i - 1) * r) + r] /\ q.res.ys = [i \in 1..ny |-> 2 * (y0 + (i - 1) * r) + r])

\* the answer to a point query at <<hx, hy>> (1/32 m): the finest populated cell that contains it
RECURSIVE XYAns(_, _, _, _, _, _)
XYAns(s, grids, rs, lay, hx, hy) ==
  IF rs = {} THEN IF lay \in Counts THEN 0 ELSE NONE
  ELSE LET r == SetMin(rs)
           hit == {c \in LayCells(s, grids, r, lay) : 2 * c[1] <= hx /\ hx < 2 * (c[1] + r) /\ 2 * c[2] <= hy /\ hy < 2 * (c[2] + r)}
       IN IF hit = {} THEN XYAns(s, grids, rs \ {r}, lay, hx, hy) ELSE Val(s, CHOOSE c \in hit : TRUE, lay, FALSE)
QXY(s, grids, q) ==
  LET rs == IF q.r = 0 THEN Rng(s.resl) ELSE {q.r}
      want == [i \in DOMAIN q.hx |-> XYAns(s, grids, rs, q.ls[1], q.hx[i], q.hy[i])]
  IN F("xy.array", q.res.av = want) \cup F("xy.list", q.res.lv = want) \cup F("xy.scalar", q.res.sv = want) \cup F("xy.tuple", q.res.tv = want) \cup F("xy.input", q.res.same) \cup F("xy.refused", q.res.ref)

QTiles(cfg, s, grids, q) ==
  LET r == ResOf(s, q.r)
      n == cfg.T \div r
      tl == q.res.tl
      geo == \A i \in DOMAIN tl : tl[i].g = <<tl[i].g[1], r, 0, tl[i].g[4], 0, -r>> /\ tl[i].shape = <<n, n>>
      org == [i \in DOMAIN tl |-> <<tl[i].g[1], tl[i].g[4] - cfg.T>>]
      \* yielded naming: "column" counts rows of tiles and the other way round
      rc == \A i \in DOMAIN tl : tl[i].rc = <<((org[i][2] - s.ext[2]) \div cfg.T) * n, ((org[i][1] - s.ext[1]) \div cfg.T) * n, n>>
      tiles == UNION {{TileOrg(cfg, <<c[1], c[2]>>) : c \in LayCells(s, grids, r, q.ls[k])} : k \in DOMAIN q.ls}
      \* with cube a tile may hold cells without any value in the layers asked for
      may == {TileOrg(cfg, <<c[1], c[2]>>) : c \in CellsAt(s, grids, r)}
      abs(k) == UNION {{<<org[i][1] + e[2] * r, org[i][2] + e[1] * r, e[3]>> : e \in Rng(tl[i].ent[k])} : i \in DOMAIN tl}
      num(k) == SumF([i \in DOMAIN tl |-> Len(tl[i].ent[k])], DOMAIN tl)
      want(lay) == {<<c[1], c[2], Val(s, c, lay, q.zpu)>> : c \in LayCells(s, grids, r, lay)}
  IN F("tiles.geo", geo) \cup F("tiles.index", rc) \cup F("tiles.once", LET got == {org[i] : i \in DOMAIN tl} IN tiles \subseteq got /\ got \subseteq may /\ Len(tl) = Cardinality(got))
     \cup UNION {F("tiles.values", abs(k) = want(q.ls[k]) /\ num(k) = Cardinality(want(q.ls[k]))) : k \in DOMAIN q.ls}

\* for_gdal arrays are indexed [column, row from the top], the others [row from the bottom, column]
ChunkAbs(c, k, r, gd) ==
  IF gd THEN {<<c.g[1] + e[1] * r, c.g[4] - (e[2] + 1) * r, e[3]>> : e \in Rng(c.ent[k])}
  ELSE {<<c.g[1] + e[2] * r, c.g[4] - c.shape[1] * r + e[1] * r, e[3]>> : e \in Rng(c.ent[k])}
QChunks(cfg, s, grids, q) ==
  LET r == ResOf(s, q.r)
      ch == q.res.ch
      lim == IF q.md = 0 THEN 524288 ELSE q.md
      want(lay) == {<<c[1], c[2], Val(s, c, lay, q.zpu)>> : c \in LayCells(s, grids, r, lay)}
      abs(k) == UNION {ChunkAbs(ch[i], k, r, q.gd) : i \in DOMAIN ch}
      num(k) == SumF([i \in DOMAIN ch |-> Len(ch[i].ent[k])], DOMAIN ch)
  IN F("chunks.geo", \A i \in DOMAIN ch : ch[i].g = <<ch[i].g[1], r, 0, ch[i].g[4], 0, -r>>)
     \cup F("chunks.size", \A i \in DOMAIN ch : Mx(ch[i].shape[1], ch[i].shape[2]) * r <= Mx(lim, cfg.T))
     \cup F("chunks.dim", \A i \in DOMAIN ch : ch[i].md = Mx(ch[i].shape[1], ch[i].shape[2]) * r)
     \cup UNION {F("chunks.values", abs(k) = want(q.ls[k])) \cup F("chunks.once", num(k) = Cardinality(want(q.ls[k]))) : k \in DOMAIN q.ls}

\* a sorted sequence of values is the bag of f[x] over x in S
IsBag(seq, S, f) == Len(seq) = Cardinality(S) /\ \A v \in Rng(seq) \cup {f[x] : x \in S} : Cardinality({i \in DOMAIN seq : seq[i] = v}) = Cardinality({x \in S : f[x] = v})
QStats(cfg, s, grids, q) ==
  LET all == UNION {{<<r, c>> : c \in CellsAt(s, grids, r)} : r \in Held(s)}
      perm(x) == x[2][3] * (16777216 \div (x[1] * x[1]))       \* count per square metre * 65536
      area == SumF([r \in Held(s) |-> Cardinality(CellsAt(s, grids, r)) * r * r], Held(s))
      tol == 1 + Cardinality(DOMAIN s.leaf) * Cardinality(Held(s))
      dep == IF cfg.bs THEN "intensity" ELSE "depth"
  IN F("stats.cells", Rng(q.res.cc) = {<<r, Cardinality(LayCells(s, grids, r, dep))>> : r \in Held(s)} /\ Len(q.res.cc) = Cardinality(Held(s)))
     \cup F("stats.density", IsBag(q.res.dc, all, [x \in all |-> x[2][3]]))
     \cup F("stats.permeter", IsBag(q.res.dm, all, [x \in all |-> perm(x)]))
     \cup (IF cfg.bs THEN {} ELSE F("stats.densdepth", IsBag(q.res.dv, all, [x \in all |-> <<x[2][3], x[2][4]>>]))
                                  \cup F("stats.permdepth", IsBag(q.res.mv, all, [x \in all |-> <<perm(x), x[2][4]>>])))
     \cup F("stats.area", Abs(q.res.area - area) <= tol /\ Abs(q.res.nm - area) <= tol)
     \cup UNION {F("stats.values", LET some == {x \in all : HasVal(x[2], q.ls[k])} IN IsBag(q.res.lv[k], some, [x \in some |-> x[2][LayIdx(q.ls[k])]])) : k \in DOMAIN q.ls}

(* ---- exports ---- *)
ExpVal(s, c, lay, zpu) == Val(s, c, lay, zpu)
QCsv(cfg, s, grids, q) ==
  LET rs == IF q.r = 0 THEN Rng(s.resl) ELSE {q.r}
      fl == q.res.fl
      orig(h) == IF h = "elevation" THEN "depth" ELSE h
  IN F("csv.taken", q.res.kept)
     \cup F("csv.files", {fl[i].r : i \in DOMAIN fl} = rs /\ Len(fl) = Cardinality(rs))
     \cup UNION {LET f == fl[i]
                     lays == {f.hdr[k] : k \in 3..Len(f.hdr)}
                     want == {<<2 * c[1] + f.r, 2 * c[2] + f.r>> \o [k \in 1..(Len(f.hdr) - 2) |-> Val(s, c, orig(f.hdr[k + 2]), q.zpu)] : c \in CellsAt(s, grids, f.r)}
                     named == {IF w = "depth" /\ q.zpu THEN "elevation" ELSE w : w \in WantLayers(cfg, s.alg)}
                 IN IF f.hdr[1] # "x" \/ f.hdr[2] # "y" \/ lays # named \/ Len(f.hdr) # 2 + Cardinality(named) THEN {"csv.header"}
                    ELSE F("csv.values", Same(f.ent, want))
                 : i \in {i \in DOMAIN fl : fl[i].r \in rs}}
RasterAbs(f, k) == {<<f.g[1] + e[2] * f.g[2], f.g[4] - (e[1] + 1) * f.g[2], e[3]>> : e \in Rng(f.ent[k])}
ExpLays(cfg, s) == IF cfg.bs THEN <<"intensity">>
                   ELSE <<"depth">> \o (IF s.alg = "cube" THEN <<"total_uncertainty">> ELSE IF cfg.tv THEN <<"vertical_uncertainty">> ELSE <<>>)
ExpBands(cfg, s, zpu) == [k \in DOMAIN ExpLays(cfg, s) |->
  CASE ExpLays(cfg, s)[k] = "intensity" -> "Intensity" [] ExpLays(cfg, s)[k] = "depth" -> (IF zpu THEN "Elevation" ELSE "Depth")
    [] ExpLays(cfg, s)[k] = "total_uncertainty" -> "Total Uncertainty" [] OTHER -> "Vertical Uncertainty"]
QRaster(cfg, s, grids, q, zpu, kind) ==
  LET rs == IF q.r = 0 THEN Rng(s.resl) ELSE {q.r}
      fl == q.res.fl
      lays == ExpLays(cfg, s)
      lim == IF q.md = 0 THEN 524288 ELSE q.md
      \* a BAG always has an uncertainty band, empty when the soundings have no uncertainty
      okf == \A i \in DOMAIN fl : Len(fl[i].ent) = Len(lays) \/ (kind = "bag" /\ Len(lays) = 1 /\ Len(fl[i].ent) = 2 /\ fl[i].ent[2] = <<>>)
      at(r) == {i \in DOMAIN fl : fl[i].g[2] = r}
  IN F(kind \o ".taken", q.res.kept)   \* a file that has the name already is left alone
     \cup F(kind \o ".res", {fl[i].g[2] : i \in DOMAIN fl} = rs)
     \cup F(kind \o ".geo", \A i \in DOMAIN fl : fl[i].g = <<fl[i].g[1], fl[i].g[2], 0, fl[i].g[4], 0, -fl[i].g[2]>>)
     \* the name of a file says its resolution and its number, and the files of a resolution are numbered from one
     \cup F(kind \o ".files", (\A i \in DOMAIN fl : fl[i].nm[1] = fl[i].g[2]) /\ \A r \in rs : {fl[i].nm[2] : i \in at(r)} = 1..Cardinality(at(r)))
     \cup F(kind \o ".size", \A i \in DOMAIN fl : Mx(fl[i].shape[1], fl[i].shape[2]) * fl[i].g[2] <= Mx(lim, cfg.T))
     \cup F(kind \o ".crs", \A i \in DOMAIN fl : fl[i].epsg = s.epsg)
     \cup (IF ~okf THEN {kind \o ".bands"} ELSE
           F(kind \o ".names", kind = "bag" \/ \A i \in DOMAIN fl : fl[i].bn = ExpBands(cfg, s, zpu))
           \cup UNION {UNION {LET want == {<<c[1], c[2], Val(s, c, lays[k], zpu)>> : c \in LayCells(s, grids, r, lays[k])} IN
                              F(kind \o ".values", UNION {RasterAbs(fl[i], k) : i \in at(r)} = want /\ SumF([i \in at(r) |-> Len(fl[i].ent[k])], at(r)) = Cardinality(want))
                              : k \in DOMAIN lays} : r \in rs})
MinMaxOf(e) == LET S == {x[3] : x \in Rng(e)} IN <<SetMin(S), SetMax(S)>>
QBag(cfg, s, grids, q) ==
  QRaster(cfg, s, grids, q, TRUE, "bag")
  \cup F("bag.minmax", \A i \in DOMAIN q.res.fl : LET f == q.res.fl[i] IN
          /\ f.ent[1] # <<>> => f.emm = MinMaxOf(f.ent[1])
          /\ (Len(f.ent) > 1 /\ f.ent[2] # <<>>) => f.umm = MinMaxOf(f.ent[2]))
  \* the metadata options given reach the file, the others have their documented values, and the registration file names the coordinate system
  \cup F("bag.options", \A i \in DOMAIN q.res.fl : \A x \in Rng(q.res.fl[i].opt) : x[2] = IF x[1] \in Rng(q.opt) THEN "v" ELSE "d")
  \cup F("bag.vertical", \A i \in DOMAIN q.res.fl : q.res.fl[i].vw = IF "vert_crs" \in Rng(q.opt) THEN "v" ELSE "d")
  \cup F("bag.registration", \A i \in DOMAIN q.res.fl : q.res.fl[i].rxl = s.epsg)
  \cup F("bag.time", (s.mint = 0 \/ s.maxt = 0) \/ \A i \in DOMAIN q.res.fl : q.res.fl[i].tm = <<s.mint, s.maxt>>)

(* ---- a source's own layer ---- *)
QCont(cfg, pts, lo, s, q) ==
  LET r == ResOf(s, q.r)
      mine == IF q.name \in DOMAIN s.src THEN s.src[q.name].ids ELSE {}
      leaves == {o \in DOMAIN s.leaf : r \in DOMAIN s.leaf[o].g}
      in(o) == {i \in mine : lo[i] = o}
      P(w) == {i \in in(w[1]) : CellOf(w[1], r, pts[i]) = w[2]}
      all == UNION {{<<o, CellOf(o, r, pts[i])>> : i \in in(o)} : o \in leaves}
      want == {w \in all : s.alg = "cube" => Estimable(pts, P(w))}
      pos(w) == <<(w[1][2] + w[2][1] * r - s.ext[2]) \div r, (w[1][1] + w[2][2] * r - s.ext[1]) \div r>>
  IN IF want = {} THEN F("cont.empty", q.res.ent = <<>> \/ q.res.ent[1] = <<>>)
     ELSE IF Len(q.res.ent) # 1 THEN {"cont.missing"} ELSE
       LET e == q.res.ent[1] IN
       F("cont.shape", q.res.shape = FullShape(s, r))
       \cup F("cont.cells", {<<x[1], x[2]>> : x \in Rng(e)} = {pos(w) : w \in want} /\ Len(e) = Cardinality(want))
       \cup F("cont.values", \A w \in want : \A x \in Rng(e) : <<x[1], x[2]>> = pos(w) =>
                LET p == P(w)
                    zs == {pts[i][3] : i \in p}
                IN CASE s.alg = "mean" -> IsMean(x[3], SumZ(pts, p), Cardinality(p))
                     [] s.alg = "shoalest" -> x[3] = SetMin(zs)
                     [] OTHER -> x[3] = IF Prior(s.leaf[w[1]].g[r].par) THEN SetMin(zs) ELSE SetMax(zs))

(* ---- neighbours ---- *)
QNb(cfg, pts, lo, s, q) ==
  LET z == IF q.sub THEN cfg.S ELSE cfg.T
      o == q.o
      parent(x) == IF q.sub THEN TileOrg(cfg, x) ELSE <<0, 0>>
      holder(i) == IF q.sub THEN lo[i] ELSE TileOrg(cfg, lo[i])
      nbo == <<<<o[1], o[2] - z>>, <<o[1] + z, o[2]>>, <<o[1], o[2] + z>>, <<o[1] - z, o[2]>>>>
      there == {holder(i) : i \in AllIds(s)}
      nb == [k \in 1..4 |-> IF nbo[k] \in there /\ parent(nbo[k]) = parent(o) THEN nbo[k] ELSE <<>>]
      near(k, i) == CASE k = 1 -> pts[i][2] >= o[2] - q.buf [] k = 2 -> pts[i][1] <= o[1] + z + q.buf
                      [] k = 3 -> pts[i][2] <= o[2] + z + q.buf [] k = 4 -> pts[i][1] >= o[1] - q.buf
      want == UNION {{i \in AllIds(s) : nb[k] # <<>> /\ holder(i) = nb[k] /\ near(k, i)} : k \in 1..4}
  IN F("nb.tiles", q.res.nb = nb) \cup F("nb.points", Rng(q.res.ids) = want /\ Len(q.res.ids) = Cardinality(want))

(* ---- slopes: a cell whose soundings lie on one plane z = a x + b y + c with integer slopes and determine it ---- *)
QSlope(cfg, pts, lo, s, q) ==
  LET r == ResOf(s, q.r)
      leaves == {o \in DOMAIN s.leaf : r \in DOMAIN s.leaf[o].g}
      ids(o) == IdsIn(s, lo, o)
      cells(o) == {CellOf(o, r, pts[i]) : i \in ids(o)}
      det(P) == \E i \in P : \E j \in P : \E k \in P :
                  (pts[j][1] - pts[i][1]) * (pts[k][2] - pts[i][2]) # (pts[k][1] - pts[i][1]) * (pts[j][2] - pts[i][2])
      on(P, a, b) == \E i \in P : \A j \in P : 2 * (pts[j][3] - pts[i][3]) = 125 * (a * (pts[j][1] - pts[i][1]) + b * (pts[j][2] - pts[i][2]))
      val(e, p) == {x[3] : x \in {x \in Rng(e) : <<x[1], x[2]>> = p}}
      pos(o, c) == <<(o[2] + c[1] * r - s.ext[2]) \div r, (o[1] + c[2] * r - s.ext[1]) \div r>>
      near(S, v) == Cardinality(S) = 1 /\ \A x \in S : Abs(x - v) <= 2
  IN IF Len(q.res.ent) # 2 THEN {"slope.missing"} ELSE
     F("slope.values", \A o \in leaves : \A c \in cells(o) :
         LET P == {i \in ids(o) : CellOf(o, r, pts[i]) = c} IN
         (Cardinality(P) >= 3 /\ det(P)) =>
            \A a \in -3..3 : \A b \in -3..3 : on(P, a, b) => /\ near(val(q.res.ent[1], pos(o, c)), 1000 * a) /\ near(val(q.res.ent[2], pos(o, c)), 1000 * b))
     \cup F("slope.cells", \A k \in 1..2 : {<<x[1], x[2]>> : x \in Rng(q.res.ent[k])} = UNION {{pos(o, c) : c \in cells(o)} : o \in leaves})

(* ---- attribution, extents ---- *)
QAttr(cfg, s, q) ==
  LET a == q.res IN
  F("attr.sources", Rng(a.src) = {<<n, s.src[n].files>> : n \in DOMAIN s.src} /\ Rng(a.un) = DOMAIN s.src /\ Len(a.un) = Cardinality(DOMAIN s.src))
  \cup F("attr.meta", a.epsg = s.epsg /\ a.vref = s.vref /\ a.alg = s.alg /\ a.gmode = s.gmode /\ a.gp = s.gpar /\ a.tsz = cfg.T /\ a.ssz = cfg.ssz)
  \cup F("attr.time", a.tm = <<s.mint, s.maxt>>)
  \cup F("attr.ext", a.ext = s.ext /\ (s.ext # <<>> => a.wh = <<s.ext[3] - s.ext[1], s.ext[4] - s.ext[2]>>))
  \cup F("attr.tiles", a.nt = Cardinality({TileOrg(cfg, o) : o \in DOMAIN s.leaf}))
  \cup F("attr.resl", a.resl = s.resl)

\* small facts and the printed summary
QFacts(cfg, pts, s, q) ==
  LET a == q.res
      emp == DOMAIN s.leaf = {}
      line(n) == LET p == (CHOOSE x \in Rng(a.sp) : x[1] = n)[2] IN IF Len(p) = 2 THEN p[1] ELSE n      \* "line set__line"
      lays == IF Held(s) = {} THEN {} ELSE WantLayers(cfg, s.alg)
  IN F("facts.empty", a.emp = emp /\ a.ng = (Held(s) = {}) /\ a.ht = (~emp /\ ~cfg.vr) /\ a.pc = Cardinality(AllIds(s)))
     \cup F("facts.layers", Rng(a.ln) = lays /\ Rng(a.rl) = lays /\ a.dk = IF cfg.bs THEN "intensity" ELSE "depth")
     \cup F("facts.unc", a.hv = (~emp /\ cfg.tv) /\ a.hh = (~emp /\ cfg.th))
     \cup F("facts.up", a.pu = s.posup)
     \cup F("facts.lines", Rng(a.uc) = {line(n) : n \in DOMAIN s.src} /\ Len(a.uc) = Cardinality(Rng(a.uc)))
     \cup F("facts.print", /\ a.pl /\ a.pr = s.resl /\ a.pn = s.ext /\ a.pb = cfg.bs /\ a.pe = s.epsg /\ a.pm = (IF cfg.bs THEN "Intensity" ELSE "Depth")
                           /\ (s.mids = {} \/ IsMean(a.pv, SumZ(pts, s.mids), Cardinality(s.mids))))

\* plots: the mesh has every cell of the plotted resolutions; histogram and curve are made of all the populated cells
QPlots(cfg, s, grids, q) ==
  LET rs == IF q.r = 0 THEN s.resl ELSE <<q.r>>
      dep == IF cfg.bs THEN "intensity" ELSE "depth"
      cells == UNION {{<<r, c>> : c \in CellsAt(s, grids, r)} : r \in Held(s)}
      all == {x \in cells : HasVal(x[2], dep)}
      of(k) == IF k \in {"density", "permeter"} THEN cells ELSE all
      perm(x) == x[2][3] * (16777216 \div (x[1] * x[1]))
      v(x, k) == CASE k = "density" -> x[2][3] * 16 [] k = "permeter" -> perm(x) [] k = "z" -> x[2][4] * 16
                   [] k \in {"vertical_uncertainty", "total_uncertainty"} -> x[2][5] * 16 [] k = "horizontal_uncertainty" -> x[2][6] * 16
      num(k, e) == Cardinality({x \in of(k) : v(x, k) <= e})
      RECURSIVE upto(_, _)
      upto(h, n) == IF n = 0 THEN 0 ELSE h[n] + upto(h, n - 1)
      kinds == {"density", "permeter", "z"} \cup
               IF s.alg = "cube" THEN {"total_uncertainty"} ELSE (IF cfg.tv THEN {"vertical_uncertainty"} ELSE {}) \cup (IF cfg.th THEN {"horizontal_uncertainty"} ELSE {})
      okh(h) == LET tol == 2 + Abs(h.e[1]) \div 4000000 IN
                /\ Len(h.h) = q.nb
                /\ \A n \in 1..q.nb : num(h.k, h.e[n + 1] - tol) <= upto(h.h, n) /\ upto(h.h, n) <= num(h.k, h.e[n + 1] + tol)
                /\ upto(h.h, q.nb) = Cardinality(of(h.k))
      zs == {x[2][4] : x \in all}
      w == (SetMax(zs) - SetMin(zs) + 2) \div q.nb + 1
      inbin(x, p) == x[2][4] >= p[1] - w - 3 /\ x[2][4] <= p[1] + 3
      okl(L) == /\ \A x \in all : \E p \in Rng(L.p) : inbin(x, p)
                /\ \A p \in Rng(L.p) : LET S == {v(x, L.k) : x \in {x \in all : inbin(x, p)}} IN S # {} /\ SetMin(S) - 1 <= p[2] /\ p[2] <= SetMax(S) + 1
                /\ (q.nb = 1 => Len(L.p) = 1 /\ LET t1 == SumF([x \in all |-> v(x, L.k)], all) IN Abs(L.p[1][2] - t1 \div Cardinality(all)) <= 2)
  IN F("plots.mesh", Len(q.res.mesh) = Len(rs) /\ \A k \in DOMAIN rs : k \in DOMAIN q.res.mesh =>
        Same(q.res.mesh[k], {<<c[1], c[2], rs[k], Val(s, c, q.ls[1], FALSE)>> : c \in LayCells(s, grids, rs[k], q.ls[1])}))
     \cup F("plots.hist", {h.k : h \in Rng(q.res.hist)} = kinds /\ \A h \in Rng(q.res.hist) : okh(h))
     \cup F("plots.curve", cfg.bs \/ ({L.k : L \in Rng(q.res.line)} = {"density", "permeter"} /\ \A L \in Rng(q.res.line) : okl(L)))

QFaults(cfg, pts, grids, lo, s, q) ==
  LET bagref == q.q = "bag" /\ cfg.bs
      \* nothing gridded yet, or several resolutions and none named
      noref == \/ q.q \in {"layer", "trim", "surf", "tiles"} /\ Held(s) = {}
               \/ q.q \in {"layer", "trim", "surf", "tiles", "chunks"} /\ q.r = 0 /\ Len(s.resl) > 1
  IN
  IF bagref THEN F("bag.refused", ~q.ok)
  ELSE IF noref THEN F(q.q \o ".refused", ~q.ok)
  ELSE IF ~q.ok THEN {"exc." \o q.q}
  ELSE F("rep." \o q.q, q.rep) \cup
       (CASE q.q = "layer" -> QLayer(s, grids, q)
          [] q.q = "trim" -> QTrim(s, grids, q)
          [] q.q = "surf" -> QSurf(s, grids, q)
          [] q.q = "xy" -> QXY(s, grids, q)
          [] q.q = "tiles" -> QTiles(cfg, s, grids, q)
          [] q.q = "chunks" -> QChunks(cfg, s, grids, q)
          [] q.q = "stats" -> QStats(cfg, s, grids, q)
          [] q.q = "csv" -> QCsv(cfg, s, grids, q)
          [] q.q = "tif" -> QRaster(cfg, s, grids, q, q.zpu, "tif")
          [] q.q = "bag" -> QBag(cfg, s, grids, q)
          [] q.q = "xfmt" -> F("xfmt.refused", q.res.refused /\ q.res.left = 0)
          [] q.q = "cont" -> QCont(cfg, pts, lo, s, q)
          [] q.q = "nb" -> QNb(cfg, pts, lo, s, q)
          [] q.q = "slope" -> QSlope(cfg, pts, lo, s, q)
          [] q.q = "attr" -> QAttr(cfg, s, q)
          [] q.q = "facts" -> QFacts(cfg, pts, s, q)
          [] q.q = "plots" -> QPlots(cfg, s, grids, q)
          [] q.q = "ext" -> F("ext.report", q.res.e = s.ext)
          [] OTHER -> {})

(* ------------------------------------------------------------------ events *)
\* resolution used for each regridded leaf: the one asked for, or for an automatic run the allowed one that the observation shows
\* (rounding can leave two allowed; a leaf may still hold the other one from an earlier run, so the one is taken that explains everything the leaf shows)
PickRes(cfg, pts, grids, lo, s, a, ob) ==
  LET R == Regridded(s, a)
      has(o, r) == o \in ObsLeaves(ob) /\ r \in GDom(ObsLeaf(ob, o))
      explains(o, r) ==
        has(o, r) /\ LET lf == ObsLeaf(ob, o)
                        old == IF a.clear \/ a.regrid = "update" THEN EmptyFn ELSE s.leaf[o].g
                    IN /\ GDom(lf) = DOMAIN old \cup {r}
                       /\ \A q \in DOMAIN old \ {r} : old[q].gi \in {0, GIdx(lf, q)}
                       /\ GridFaults(cfg, pts, o, r, NewGrid(cfg, pts, s, lo, o, a), grids[GIdx(lf, r)]) = {}
      pick(S, Q) == IF Cardinality(S) = 1 THEN SetMin(S)
                    ELSE LET good == {r \in S : \A o \in Q : explains(o, r)}
                             ok == {r \in S : \A o \in Q : has(o, r)}
                         IN IF good # {} THEN SetMin(good) ELSE IF ok # {} THEN SetMin(ok) ELSE SetMin(S)
      sr == pick(AutoSR(cfg, pts, lo, s, a.mode), R)
  IN IF a.res # 0 THEN [o \in R |-> a.res]
     ELSE IF ~cfg.vr THEN [o \in R |-> sr]
     ELSE [o \in R |-> pick(AutoVR(cfg, pts, lo, s, o, a.mode), {o})]
ResFaults(cfg, s, a, rr, ob) == \* the leaf holds the resolution that its soundings call for
  IF a.res # 0 THEN {} ELSE
  F("res." \o a.mode, \A o \in DOMAIN rr : o \in ObsLeaves(ob) => rr[o] \in GDom(ObsLeaf(ob, o)))

\* expected outcome, next ideal state (before binding) and clauses that are specific to the operation
Step(cfg, pts, grids, lo, s, e) ==
  CASE e.op = "add" ->
         \* what was handed in still belongs to the caller ("kept")
         IF AddRefused(s, e.a) THEN [ok |-> FALSE, s |-> s, f |-> F("src.kept", e.a.kept) \cup F("resl.same", e.obs.resl = s.resl) \cup F("ext.same", e.obs.ext = s.ext)]
         ELSE [ok |-> TRUE, s |-> DoAdd(s, lo, e.a), f |-> F("src.kept", e.a.kept) \cup ExtFaults(cfg, s.ext, Box(pts, Rng(e.a.ids)), e.obs.ext) \cup F("resl.same", e.obs.resl = s.resl)]
    [] e.op = "remove" ->
         LET s2 == DoRemove(s, lo, e.a.name) IN
         [ok |-> TRUE, s |-> s2, f |-> F("ext.same", e.obs.ext = s2.ext) \cup F("resl.grew", Rng(e.obs.resl) \subseteq Rng(s.resl))
                                       \cup (IF e.a.name \in DOMAIN s.src THEN {} ELSE F("resl.same", e.obs.resl = s.resl))]
    [] e.op = "grid" ->
         IF GridRefused(cfg, s, e.a) THEN [ok |-> FALSE, s |-> s, f |-> F("par.kept", e.a.kept) \cup F("resl.same", e.obs.resl = s.resl) \cup F("ext.same", e.obs.ext = s.ext)]
         ELSE LET rr == PickRes(cfg, pts, grids, lo, s, e.a, e.obs) IN
              [ok |-> TRUE, s |-> DoGrid(cfg, pts, s, lo, e.a, rr, e.a.gm),
               f |-> ResFaults(cfg, s, e.a, rr, e.obs) \cup F("par.kept", e.a.kept) \cup F("resl.returned", ~e.ok \/ e.ret = e.obs.resl) \cup F("ext.same", e.obs.ext = s.ext)]
    [] e.op = "q" ->
         [ok |-> TRUE, s |-> s, f |-> UNION {QFaults(cfg, pts, grids, lo, s, e.a.qs[i]) : i \in DOMAIN e.a.qs}
                                       \cup F("resl.same", e.obs.resl = s.resl) \cup F("ext.same", e.obs.ext = s.ext)]
    [] e.op = "mk" ->
         [ok |-> ~MakeRefused(e.a), s |-> s, f |-> IF e.ok /\ ~MakeRefused(e.a) THEN F("mk.type", e.a.typ = MakeType(e.a)) \cup F("mk.size", e.a.sz[1] = e.a.t * UNIT /\ (e.a.gt = "single_resolution" \/ e.a.sz[2] = e.a.s * UNIT)) ELSE {}]
    [] OTHER -> [ok |-> TRUE, s |-> s, f |-> F("resl.same", e.obs.resl = s.resl) \cup F("ext.same", e.obs.ext = s.ext)]

Report(T, i, e, fs) == \A f \in fs : PrintT("MM|" \o T.id \o "|" \o ToString(i) \o "|" \o e.op \o "|" \o f)

Init == t \in 1..Len(Traces) /\ l = 1 /\ st = InitState

Next ==
  /\ l <= Len(Traces[t].ev)
  /\ LET T == Traces[t]
         e == T.ev[l]
         lo == [i \in DOMAIN T.pts |-> LeafOrg(T.cfg, T.pts[i])]
         broken == "fatal" \in DOMAIN e
         x == IF broken THEN [ok |-> TRUE, s |-> st, f |-> {}] ELSE Step(T.cfg, T.pts, T.grids, lo, st, e)
         stop == x.ok # e.ok
         fs == IF stop THEN {IF e.ok THEN "reject." \o e.op ELSE "exc." \o e.op}
               ELSE x.f \cup CtsFaults(x.s, IF l = 1 THEN <<>> ELSE T.ev[l - 1].obs.cts, e) \cup CheckObs(T.cfg, T.pts, T.grids, lo, x.s, e.obs) \cup UNION {AltFaults(e, e.alts[i]) : i \in DOMAIN e.alts}
         n2 == IF stop THEN Len(T.ev) + 1 ELSE l + 1
     IN /\ Report(T, l, e, IF x.ok THEN fs ELSE {"refused." \o f : f \in fs})
        /\ l' = n2
        /\ st' = IF stop THEN st ELSE Bind(x.s, e.obs)
        /\ t' = t
        /\ (n2 > Len(T.ev) => PrintT("DONE|" \o T.id \o "|" \o ToString(l)))

Spec == Init /\ [][Next]_vars
=============================================================================
