------------------------------ MODULE GenFolder ------------------------------
(***************************************************************************)
(* Prints every transition of MCFolder as E|source|operation|=|target, for *)
(* harness/tours.py (see Gen.tla); what is refused or only looks is a      *)
(* transition to the same state.                                           *)
(***************************************************************************)
EXTENDS MCFolder

FP(u) == ToString(TLCFP(u))
Edge(op) == PrintT("E|" \o FP(<<s, m>>) \o "|" \o op \o "|" \o (IF s' = s THEN "=" ELSE "!") \o "|" \o FP(<<s, m>>'))
Fo(D) == D[1] \o ToString(D[2])
Look(op) == UNCHANGED <<s, m, ok>> /\ Edge(op)
GInit == Init /\ PrintT("C|FALSE|1|1|" \o FP(<<s, m>>))
GNext ==
  /\ n < MaxOps /\ n' = n + 1
  /\ \/ \E D \in D0 : Junk(D) /\ Edge("j:" \o Fo(D))
     \/ \E D \in D0 : Rm(D) /\ Edge("x:" \o Fo(D))
     \/ \E x \in Free : \E D \in D0 \cup {Nowhere} : \E typ \in Types : x = SetMin(Free) /\ Create(x, D, typ) /\ Edge("c:" \o ToString(x) \o ":" \o Fo(D) \o ":" \o typ)
     \/ \E x \in DOMAIN s.h : \E i \in Ids : AddTo(x, i) /\ Edge("a:" \o ToString(x) \o ":" \o ToString(i))
     \/ \E x \in DOMAIN s.h : \E i \in Ids : RemoveFrom(x, i) /\ Edge("r:" \o ToString(x) \o ":" \o ToString(i))
     \/ \E x \in DOMAIN s.h : \E D \in D0 : Save(x, D) /\ Edge("s:" \o ToString(x) \o ":" \o Fo(D))
     \/ \E x \in DOMAIN s.h : Close(x) /\ Edge("k:" \o ToString(x))
     \/ \E x \in Free : \E D \in D0 \cup Fresh : /\ x = SetMin(Free)
                                               /\ IF CanOpen(s, D) THEN Open(x, D) /\ Edge("o:" \o ToString(x) \o ":" \o Fo(D)) ELSE Look("o:" \o ToString(x) \o ":" \o Fo(D))
     \/ \E D \in D0 \cup Fresh : D \in DOMAIN s.fs /\ Look("i:" \o Fo(D))
     \/ \E D \in D0 : Look("b:" \o Fo(D))
=============================================================================
