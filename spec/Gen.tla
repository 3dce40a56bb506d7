--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Prints every transition of Bathy (with the constants of the cfg) as     *)
(*   E|source state|operation|refused|target state                         *)
(* (states by fingerprint) and the pool of soundings as P|i|x|y|z.         *)
(* harness/tours.py joins the transitions to histories that cover all of   *)
(* them, runs those in the code and hands the recordings to TraceBathy.    *)
(***************************************************************************)
EXTENDS MCBathy, TLCExt

IdStr(ids) == LET s == SortSet(ids) IN [i \in DOMAIN s |-> ToString(s[i])]
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE s[1] \o (IF Len(s) > 1 THEN "," ELSE "") \o Join(Tail(s))
MetaStr(m) == ToString(m.epsg) \o "," \o m.vref \o "," \o ToString(m.mint) \o "," \o ToString(m.maxt)
FP(s) == ToString(TLCFP(s))
Edge(op) == PrintT("E|" \o FP(st) \o "|" \o op \o "|" \o (IF st' = st THEN "=" ELSE "!") \o "|" \o FP(st'))

GAdd == \E name \in DOMAIN Srcs : \E ids \in Srcs[name] : \E m \in AddMeta : \E bad \in BadAdds :
          /\ Add(name, ids, m, bad)
          /\ Edge("a:" \o name \o ":" \o Join(IdStr(ids)) \o ":" \o MetaStr(m) \o ":" \o bad)
GRemove == \E name \in DOMAIN Srcs : name \in DOMAIN st.src /\ Remove(name) /\ Edge("r:" \o name)
GGrid == \E a \in GridOps : /\ Grid(a)
                            /\ Edge("g:" \o a.alg \o ":" \o ToString(a.res) \o ":" \o a.mode \o ":" \o ToString(a.clear) \o ":" \o a.regrid)
GInit == /\ Init
         /\ \A i \in DOMAIN Pts : PrintT("P|" \o ToString(i) \o "|" \o ToString(Pts[i][1]) \o "|" \o ToString(Pts[i][2]) \o "|" \o ToString(Pts[i][3]))
         /\ PrintT("C|" \o ToString(Cfg.vr) \o "|" \o ToString(Cfg.T) \o "|" \o ToString(Cfg.S) \o "|" \o FP(st))
GNext == n < MaxOps /\ n' = n + 1 /\ (GAdd \/ GRemove \/ GGrid)
=============================================================================
