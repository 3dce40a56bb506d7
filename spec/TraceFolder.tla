----------------------------- MODULE TraceFolder -----------------------------
(***************************************************************************)
(* Validates recordings of create_grid, load_grid, is_bathygrid, save and  *)
(* load (harness/folder.py) against BathyFolder.  As TraceBathy: every     *)
(* failing clause is printed, the history goes on from the ideal state.    *)
(* A value is [ids, resl, set]: soundings, resolutions, settings.          *)
(***************************************************************************)
EXTENDS BathyFolder, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, st
vars == <<t, l, st>>

Folders(ob) == {d.f : d \in Rng(ob.fs)}
FolderOf(ob, D) == CHOOSE d \in Rng(ob.fs) : d.f = D
Open(ob) == {g.x : g \in Rng(ob.open)}
Grid(ob, x) == CHOOSE g \in Rng(ob.open) : g.x = x
Value(v) == [ids |-> Rng(v.ids), resl |-> Rng(v.resl), set |-> v.set]

\* what the folders and the open grids show
ObsFaults(s, ob) ==
  LET both == Folders(ob) \cap DOMAIN s.fs
      roots(D) == {r.typ : r \in Rng(FolderOf(ob, D).roots)}
      root(D, typ) == CHOOSE r \in Rng(FolderOf(ob, D).roots) : r.typ = typ
      live == Open(ob) \cap DOMAIN s.h
  IN F("fold.folders", Folders(ob) = DOMAIN s.fs)
     \cup F("fold.content", \A D \in both : FolderOf(ob, D).junk = s.fs[D].junk /\ FolderOf(ob, D).other = 0)
     \cup F("fold.roots", \A D \in both : roots(D) = DOMAIN s.fs[D].roots)
     \cup F("fold.read", \A D \in both : \A typ \in roots(D) : root(D, typ).ok)
     \cup F("fold.value", \A D \in both : \A typ \in roots(D) \cap DOMAIN s.fs[D].roots : root(D, typ).ok => Value(root(D, typ).v) = s.fs[D].roots[typ])
     \cup F("fold.is", \A D \in both : FolderOf(ob, D).is = IsGrid(s, D))
     \cup F("fold.open", \A x \in live : Value(Grid(ob, x).v) = s.h[x].val /\ Grid(ob, x).typ = s.h[x].typ)
     \cup F("fold.home", \A x \in live : Grid(ob, x).home = s.h[x].home)

\* folders that an operation may write to
Target(s, e) == CASE e.op \in {"add", "remove", "grid"} -> {s.h[e.a.x].home}
                  [] e.op \in {"save", "junk", "mkdir", "rm"} -> {e.a.f}
                  [] e.op = "create" -> {e.a.home}
                  [] OTHER -> {}

Step(s, e) ==
  CASE e.op = "mkdir" -> [ok |-> TRUE, s |-> DoMkdir(s, e.a.f), f |-> {}]
    [] e.op = "junk" -> [ok |-> TRUE, s |-> DoJunk(s, e.a.f), f |-> {}]
    [] e.op = "rm" -> [ok |-> TRUE, s |-> DoRm(s, e.a.f), f |-> {}]
    [] e.op = "close" -> [ok |-> TRUE, s |-> Forget(s, {e.a.x}), f |-> {}]
    [] e.op = "create" ->
         IF e.a.bad THEN [ok |-> FALSE, s |-> s, f |-> {}]
         ELSE [ok |-> TRUE, s |-> DoCreate(s, e.a.x, e.a.typ, [ids |-> {}, resl |-> {}, set |-> e.a.set], e.a.home), f |-> F("fold.place", e.ok => HomeOk(s, e.a.f, e.a.home))]
    [] e.op = "add" -> [ok |-> TRUE, s |-> DoHold(s, e.a.x, [s.h[e.a.x].val EXCEPT !.ids = @ \cup Rng(e.a.ids)]), f |-> {}]
    [] e.op = "remove" -> \* the resolutions of the tiles that are left
         LET v == s.h[e.a.x].val
             r == IF e.a.x \in Open(e.obs) THEN Rng(Grid(e.obs, e.a.x).v.resl) ELSE v.resl
         IN [ok |-> TRUE, s |-> DoHold(s, e.a.x, [v EXCEPT !.ids = @ \ Rng(e.a.ids), !.resl = r \cap v.resl]), f |-> {}]
    [] e.op = "grid" -> [ok |-> TRUE, s |-> DoHold(s, e.a.x, [s.h[e.a.x].val EXCEPT !.resl = {e.a.res}]), f |-> {}]
    [] e.op = "save" -> [ok |-> TRUE, s |-> DoSave(s, e.a.x, e.a.f), f |-> {}]
    [] e.op = "load" -> IF CanOpen(s, e.a.f) THEN [ok |-> TRUE, s |-> DoOpen(s, e.a.x, e.a.f), f |-> {}] ELSE [ok |-> FALSE, s |-> s, f |-> {}]
    [] e.op = "is" -> [ok |-> TRUE, s |-> s, f |-> F("fold.is", e.a.ret = IsGrid(s, e.a.f))]

Report(T, i, e, fs) == \A f \in fs : PrintT("MM|" \o T.id \o "|" \o ToString(i) \o "|" \o e.op \o "|" \o f)

Init == t \in 1..Len(Traces) /\ l = 1 /\ st = FInit
Next ==
  /\ l <= Len(Traces[t].ev)
  /\ LET T == Traces[t]
         e == T.ev[l]
         broken == "fatal" \in DOMAIN e
         x == IF broken THEN [ok |-> TRUE, s |-> st, f |-> {}] ELSE Step(st, e)
         stop == x.ok # e.ok
         fs == IF stop THEN {IF e.ok THEN "reject." \o e.op ELSE "exc." \o e.op}
               ELSE x.f \cup ObsFaults(x.s, e.obs) \cup F("fold.others", {D \in Rng(e.a.changed) : D \notin (IF x.ok THEN Target(st, e) ELSE {})} = {})
         n2 == IF stop THEN Len(T.ev) + 1 ELSE l + 1
     IN /\ Report(T, l, e, fs)
        /\ l' = n2
        /\ st' = IF stop THEN st ELSE x.s
        /\ t' = t
        /\ (n2 > Len(T.ev) => PrintT("DONE|" \o T.id \o "|" \o ToString(l)))
Spec == Init /\ [][Next]_vars
=============================================================================
