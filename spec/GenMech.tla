------------------------------- MODULE GenMech -------------------------------
(***************************************************************************)
(* Prints every transition of the mechanism BathyMech, in the format of    *)
(* Gen: two histories that lead to the same contract but leave the tiles   *)
(* in another order, with other indices or another folder are told apart,  *)
(* so that histories that cover these transitions take the code through    *)
(* each of its own situations.                                             *)
(***************************************************************************)
EXTENDS MCMech, TLCExt

IdStr(ids) == LET s == SortSet(ids) IN [i \in DOMAIN s |-> ToString(s[i])]
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE s[1] \o (IF Len(s) > 1 THEN "," ELSE "") \o Join(Tail(s))
MetaStr(x) == ToString(x.epsg) \o "," \o x.vref \o "," \o ToString(x.mint) \o "," \o ToString(x.maxt)
Now == ToString(TLCFP(<<st, m, d>>))
Then == ToString(TLCFP(<<st', m', d'>>))
Edge(op) == PrintT("E|" \o Now \o "|" \o op \o "|" \o (IF <<st', m', d'>> = <<st, m, d>> THEN "=" ELSE "!") \o "|" \o Then)

GAdd == \E name \in DOMAIN Srcs : \E ids \in Srcs[name] : \E me \in AddMeta :
          /\ ~AddRefused(st, AddArgs(name, ids, me, ""))
          /\ Add(name, ids, me, "") /\ MAdd(name, ids) /\ UNCHANGED err
          /\ Edge("a:" \o name \o ":" \o Join(IdStr(ids)) \o ":" \o MetaStr(me) \o ":")
GRemove == \E name \in DOMAIN st.src : Remove(name) /\ MRemove(name) /\ UNCHANGED err /\ Edge("r:" \o name)
GGrid == \E a \in GridOps :
           /\ DoGridWith(a)
           /\ Edge("g:" \o a.alg \o ":" \o ToString(a.res) \o ":" \o a.mode \o ":" \o ToString(a.clear) \o ":" \o a.regrid)
GReload == DoReloadM /\ Edge("l")
GInit == /\ MInit
         /\ \A i \in DOMAIN Pts : PrintT("P|" \o ToString(i) \o "|" \o ToString(Pts[i][1]) \o "|" \o ToString(Pts[i][2]) \o "|" \o ToString(Pts[i][3]))
         /\ PrintT("C|" \o ToString(Cfg.vr) \o "|" \o ToString(Cfg.T) \o "|" \o ToString(Cfg.S) \o "|" \o Now)
GNext == n < MaxOps /\ n' = n + 1 /\ (GAdd \/ GRemove \/ GGrid \/ GReload)
=============================================================================
