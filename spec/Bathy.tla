-------------------------------- MODULE Bathy --------------------------------
(***************************************************************************)
(* The contract of a bathygrid as a state machine: the operations of       *)
(* BathyCore on a small pool of soundings, in every order.  It is checked  *)
(* exhaustively (MCBathy*.cfg) for the guarantees that the operations are  *)
(* to give together, and its transitions are the histories that are        *)
(* replayed into the code (Gen.tla).                                       *)
(***************************************************************************)
EXTENDS BathyCore

CONSTANTS Cfg,       \* configuration record of the grid (vr, T, S, ox, oy, tv, th, bs)
          Pts,       \* the pool of soundings
          Srcs,      \* names of sources -> sounding ids they may bring (a set of sets: one addition brings one of them)
          Ress,      \* resolutions that are asked for (0: automatic)
          AlgSet,    \* algorithms that are asked for
          Modes,     \* modes of the automatic resolution
          AddMeta,   \* epsg, vref, mint, maxt combinations of additions
          BadAdds,   \* kinds of input that is no valid point set
          MaxOps     \* length of a history

VARIABLES st, n
vars == <<st, n>>

Lo == [i \in DOMAIN Pts |-> LeafOrg(Cfg, Pts[i])]

\* the extents after an addition, grown by whole tiles as little as possible
Grown(old, b) ==
  LET up(v, o) == LatOrg(v, o, Cfg.T) + Cfg.T
      new == <<LatOrg(b[1], Cfg.ox, Cfg.T), LatOrg(b[2], Cfg.oy, Cfg.T), up(b[3], Cfg.ox), up(b[4], Cfg.oy)>>
  IN IF old = <<>> THEN new ELSE <<Mn(old[1], new[1]), Mn(old[2], new[2]), Mx(old[3], new[3]), Mx(old[4], new[4])>>
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE <<SetMin(S)>> \o SortSet(S \ {SetMin(S)})

AddArgs(name, ids, m, bad) == [name |-> name, ids |-> SortSet(ids), files |-> <<name>>, epsg |-> m.epsg, vref |-> m.vref, mllw |-> m.mllw, posup |-> m.posup, mint |-> m.mint,
                               maxt |-> m.maxt, bad |-> bad]
Add(name, ids, m, bad) ==
  LET a == AddArgs(name, ids, m, bad) IN
  \* one sounding belongs to one source at a time
  /\ \A i \in ids : \A o \in DOMAIN st.src : (o # name) => i \notin st.src[o].ids
  /\ st' = IF AddRefused(st, a) THEN st ELSE [DoAdd(st, Lo, a) EXCEPT !.ext = Grown(st.ext, Box(Pts, ids))]
Remove(name) == /\ st' = LET s2 == DoRemove(st, Lo, name) IN [s2 EXCEPT !.resl = SelectSeq(s2.resl, LAMBDA r : r \in Held(s2))]
Choices(a) ==
  LET R == Regridded(st, a) IN
  IF a.res # 0 THEN {[o \in R |-> a.res]}
  ELSE IF ~Cfg.vr THEN {[o \in R |-> r] : r \in AutoSR(Cfg, Pts, Lo, st, a.mode)}
  ELSE {f \in [R -> UNION {AutoVR(Cfg, Pts, Lo, st, o, a.mode) : o \in R}] : \A o \in R : f[o] \in AutoVR(Cfg, Pts, Lo, st, o, a.mode)}
Grid(a) ==
  IF GridRefused(Cfg, st, a) THEN st' = st
  ELSE \E rr \in Choices(a) : st' = LET s2 == DoGrid(Cfg, Pts, st, Lo, a, rr, IF a.res = 0 THEN a.mode ELSE "RES") IN [s2 EXCEPT !.resl = SortSet(Held(s2))]
Pars == {<<>>}   \* settings of the estimator (configurations with cube override it)
GridArgs == {[alg |-> al, res |-> r, mode |-> mo, clear |-> c, regrid |-> u, par |-> p] : al \in AlgSet, r \in Ress, mo \in Modes, c \in BOOLEAN, u \in {"full", "update"}, p \in Pars}
\* the mode only matters for an automatic run, a cleared run is always a full one, and settings are for cube
GridOps == {a \in GridArgs : (a.res # 0 => a.mode = "depth") /\ (a.clear => a.regrid = "full") /\ (a.alg # "cube" => a.par = <<>>)}

Init == st = InitState /\ n = 0
DoOp ==
  \/ \E name \in DOMAIN Srcs : \E ids \in Srcs[name] : \E m \in AddMeta : \E bad \in BadAdds : Add(name, ids, m, bad)
  \/ \E name \in DOMAIN Srcs : name \in DOMAIN st.src /\ Remove(name)
  \/ \E a \in GridOps : Grid(a)
Next == n < MaxOps /\ n' = n + 1 /\ DoOp
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Guarantees                                                              *)
(***************************************************************************)
\* every sounding of every source is in exactly one leaf, the one that covers it; a leaf without soundings is not there
Placement == /\ DOMAIN st.leaf = {Lo[i] : i \in AllIds(st)}
             /\ \A a, b \in DOMAIN st.src : a # b => st.src[a].ids \cap st.src[b].ids = {}
             /\ \A o \in DOMAIN st.leaf : IdsIn(st, Lo, o) # {}
Extents == IF st.src = EmptyFn THEN st.ext = <<>> \/ DOMAIN st.leaf # {}
           ELSE \A i \in AllIds(st) : st.ext[1] <= Pts[i][1] /\ Pts[i][1] < st.ext[3] /\ st.ext[2] <= Pts[i][2] /\ Pts[i][2] < st.ext[4]
\* a leaf with no pending change shows what gridding from scratch would give
Current == \A o \in DOMAIN st.leaf : (~st.leaf[o].pend) =>
             /\ st.leaf[o].cur # 0
             /\ st.leaf[o].cur \in DOMAIN st.leaf[o].g
             /\ st.leaf[o].g[st.leaf[o].cur].ids = IdsIn(st, Lo, o)
             /\ \A r \in DOMAIN st.leaf[o].g : st.leaf[o].g[r].alg = st.alg
\* the layers of a grid come from one algorithm
OneAlg == \A o \in DOMAIN st.leaf : \A r \in DOMAIN st.leaf[o].g : st.leaf[o].g[r].alg = st.alg
\* nothing in the layers belongs to soundings that never were in the leaf
Snapshots == \A o \in DOMAIN st.leaf : \A r \in DOMAIN st.leaf[o].g : st.leaf[o].g[r].ids # {} /\ \A i \in st.leaf[o].g[r].ids : Lo[i] = o
Resolutions == ReslFaults(st, st.resl) = {}
Clock == (st.mint # 0 /\ st.maxt # 0) => st.mint <= st.maxt
\* the border soundings that a leaf was gridded with are none of its own, all of them near to it, and of leaves that are no further than a tile away
Borders == \A o \in DOMAIN st.leaf : \A r \in DOMAIN st.leaf[o].g : LET g == st.leaf[o].g[r] IN
             /\ g.b \cap g.ids = {} /\ (g.alg # "cube" => g.b = {} /\ g.par = <<>>)
             /\ \A i \in g.b : Lo[i] # o /\ \E d \in {Cfg.T, Cfg.S} : /\ o[1] - d <= Pts[i][1] /\ Pts[i][1] < o[1] + 2 * d
                                                                /\ o[2] - d <= Pts[i][2] /\ Pts[i][2] < o[2] + 2 * d
Inv == Borders /\ Placement /\ Extents /\ Current /\ OneAlg /\ Snapshots /\ Resolutions /\ Clock

IsGrid == st'.src = st.src /\ DOMAIN st.leaf # {} /\ \A o \in DOMAIN st'.leaf : ~st'.leaf[o].pend
\* what an operation may change
Frame == [][
  /\ \A o \in DOMAIN st.leaf \cap DOMAIN st'.leaf :   \* the layers of a leaf only change when it is gridded, and then nothing is pending in it
       st'.leaf[o].g # st.leaf[o].g => ~st'.leaf[o].pend
  /\ \A o \in DOMAIN st.leaf \cap DOMAIN st'.leaf :   \* a change of the soundings leaves the leaf pending
       IdsIn(st', Lo, o) # IdsIn(st, Lo, o) => st'.leaf[o].pend
  /\ (st'.src # st.src => \A o \in DOMAIN st.leaf \cap DOMAIN st'.leaf : st'.leaf[o].g = st.leaf[o].g)
  /\ (st'.alg # st.alg => st'.src = st.src)
  /\ \* a run over all the leaves shows each of them its neighbours as they are
     ((\A o \in DOMAIN st.leaf : st.leaf[o].pend) /\ DOMAIN st'.leaf = DOMAIN st.leaf /\ st'.alg = "cube") =>
       \A o \in DOMAIN st'.leaf : ~st'.leaf[o].pend => st'.leaf[o].g[st'.leaf[o].cur].b = Border(Cfg, Pts, AllIds(st'), o)
  /\ (Cardinality(DOMAIN st'.src) < Cardinality(DOMAIN st.src) => \E a \in DOMAIN st.src : AllIds(st') = AllIds(st) \ st.src[a].ids)
  ]_vars
\* adding and removing a source again leaves the soundings as they were
UndoHolds == \A name \in DOMAIN Srcs : \A ids \in Srcs[name] : \A m \in AddMeta :
  LET a == AddArgs(name, ids, m, "") IN
  (~AddRefused(st, a) /\ ids \cap AllIds(st) = {}) => DoRemove(DoAdd(st, Lo, a), Lo, name).src = st.src
\* updating only the changed leaves gives the same newest layers as gridding all of them at that resolution
UpdateLikeFull == \A r \in Ress \ {0} : \A al \in AlgSet :
  LET up == [alg |-> al, res |-> r, mode |-> "depth", clear |-> FALSE, regrid |-> "update", par |-> st.gpar]
      fu == [up EXCEPT !.regrid = "full"]
      s1 == DoGrid(Cfg, Pts, st, Lo, up, [o \in Regridded(st, up) |-> r], "RES")
      s2 == DoGrid(Cfg, Pts, st, Lo, fu, [o \in Regridded(st, fu) |-> r], "RES")
        \* with cube a leaf that is not gridded again keeps what it had of its neighbours
      own(g) == [g EXCEPT !.b = {}, !.par = <<>>]
  IN (~GridRefused(Cfg, st, up) /\ \A o \in DOMAIN st.leaf : st.leaf[o].pend \/ st.leaf[o].cur = r) =>
       \A o \in DOMAIN st.leaf : /\ ~s1.leaf[o].pend
                                      /\ IF al = "cube" /\ ~st.leaf[o].pend THEN own(s1.leaf[o].g[r]) = own(s2.leaf[o].g[r]) ELSE s1.leaf[o].g[r] = s2.leaf[o].g[r]
Laws == UndoHolds /\ UpdateLikeFull
=============================================================================
