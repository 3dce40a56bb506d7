----------------------------- MODULE BathyFolder -----------------------------
(***************************************************************************)
(* Grids and the folders they live in (create_grid, load_grid,             *)
(* is_bathygrid, save, load): the contract, as pure operators on           *)
(*   s.fs   folder -> [junk: something that is not ours is in it,          *)
(*                     roots: type of grid -> what a reader finds there]   *)
(*   s.h    open grid -> [typ, val: what it holds, home: its folder or Nowhere] *)
(* MCFolder.tla checks the mechanism of the code against it (tiles that    *)
(* are written one by one, extents in the metadata, roots found by name),  *)
(* TraceFolder.tla validates recordings of the real code.                  *)
(***************************************************************************)
EXTENDS BathyCore

Nowhere == <<"", 0>>     \* folders are <<name, k>>, k > 0 for the new ones next to a folder that is taken
NoFolder == [junk |-> FALSE, roots |-> EmptyFn]
FInit == [fs |-> EmptyFn, h |-> EmptyFn]
Has(s, D) == D \in DOMAIN s.fs
Taken(s, D) == Has(s, D) /\ (s.fs[D].junk \/ DOMAIN s.fs[D].roots # {})
\* a folder is a grid folder when a root is in it, and can be opened when it is the only one
IsGrid(s, D) == Has(s, D) /\ DOMAIN s.fs[D].roots # {}
CanOpen(s, D) == Has(s, D) /\ Cardinality(DOMAIN s.fs[D].roots) = 1

WriteRoot(s, D, typ, v) == LET f == IF Has(s, D) THEN s.fs[D] ELSE NoFolder
                           IN [s EXCEPT !.fs = Put(@, D, [f EXCEPT !.roots = Put(@, typ, v)])]
\* grids in memory whose folder was written by another one, or is gone, are not used any more
Forget(s, S) == [s EXCEPT !.h = Restrict(@, DOMAIN @ \ S)]
Others(s, x, D, typ) == {y \in DOMAIN s.h : y # x /\ s.h[y].home = D /\ s.h[y].typ = typ}

DoMkdir(s, D) == IF Has(s, D) THEN s ELSE [s EXCEPT !.fs = Put(@, D, NoFolder)]
DoJunk(s, D) == LET t == DoMkdir(s, D) IN [t EXCEPT !.fs[D].junk = TRUE]
DoRm(s, D) == Forget([s EXCEPT !.fs = Restrict(@, DOMAIN @ \ {D})], {y \in DOMAIN s.h : s.h[y].home = D})
\* a new grid in memory (home Nowhere), in the folder asked for when that is free, in a new one next to it when it is taken
HomeOk(s, D, home) == IF D = Nowhere THEN home = Nowhere ELSE IF Taken(s, D) THEN home \notin DOMAIN s.fs ELSE home = D
DoCreate(s, x, typ, v, home) ==
  LET t == IF home = Nowhere THEN s ELSE Forget(DoMkdir(s, home), {y \in DOMAIN s.h : s.h[y].home = home})
  IN [t EXCEPT !.h = Put(@, x, [typ |-> typ, val |-> v, home |-> home])]
\* the grid holds something else now, and so does its folder
DoHold(s, x, v) == LET t == [s EXCEPT !.h[x].val = v]
                       g == s.h[x]
                   IN IF g.home = Nowhere THEN t ELSE Forget(WriteRoot(t, g.home, g.typ, v), Others(s, x, g.home, g.typ))
\* the copy replaces what was there of its type, nothing else; from now on the grid lives in that folder
DoSave(s, x, D) == LET g == s.h[x] IN Forget(WriteRoot([s EXCEPT !.h[x].home = D], D, g.typ, g.val), Others(s, x, D, g.typ))
DoOpen(s, x, D) == LET typ == CHOOSE y \in DOMAIN s.fs[D].roots : TRUE
                       t == [s EXCEPT !.h = Put(@, x, [typ |-> typ, val |-> s.fs[D].roots[typ], home |-> D])]
                   IN Forget(t, Others(t, x, D, typ))
=============================================================================
