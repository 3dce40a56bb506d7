------------------------------- MODULE MCOwn -------------------------------
(***************************************************************************)
(* Who holds what.  Several grids live in one process, next to callers who *)
(* hand values to them (soundings, file lists, parameters) and get values  *)
(* from them (layers, lists, reports).  Values are mutable objects at      *)
(* locations of a heap; a grid or the caller may write into any object it  *)
(* has a reference to.  The contract of a grid (BathyCore) is a function   *)
(* of its own history alone, which is what the ghosts keep: a grid that    *)
(* holds copies of its own refines it, a shared object breaks it.          *)
(* BUG plants one way of sharing (harness/selftest.py).                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Grids, Vals, MaxLoc, MaxSlots, MaxHeld, MaxOps, BUG

VARIABLES heap,   \* location -> value
          slots,  \* grid -> sequence of locations: the objects that make up its state
          held,   \* locations the caller has references to
          truth,  \* grid -> sequence of values: what its own history made of it
          mine,   \* location -> value: what the caller last saw or wrote there
          n
vars == <<heap, slots, held, truth, mine, n>>
View == <<heap, slots, held, truth, mine>>

Default == 1   \* the object behind a default argument; nobody's in the right mechanism
Locs == 1..MaxLoc
Ran(q) == {q[i] : i \in DOMAIN q}
Used == {Default} \cup held \cup UNION {Ran(slots[g]) : g \in Grids}
Free == Locs \ Used
New(k) == CHOOSE q \in [1..k -> Free] : \A i \in 1..k : q[i] = CHOOSE l \in Free : Cardinality({x \in Free : x < l}) = i - 1

Init == /\ heap = [l \in Locs |-> CHOOSE v \in Vals : TRUE]
        /\ slots = [g \in Grids |-> <<>>]
        /\ held = {}
        /\ truth = [g \in Grids |-> <<>>]
        /\ mine = [l \in Locs |-> CHOOSE v \in Vals : TRUE]
        /\ n = 0

\* the caller prepares something to hand in
Make(v) == /\ Cardinality(held) < MaxHeld /\ Free # {}
           /\ LET l == New(1)[1] IN /\ heap' = [heap EXCEPT ![l] = v]
                                    /\ held' = held \cup {l}
                                    /\ mine' = [mine EXCEPT ![l] = v]
           /\ UNCHANGED <<slots, truth>>
Forget(l) == /\ held' = held \ {l}
             /\ UNCHANGED <<heap, slots, truth, mine>>
CallerWrites(l, v) == /\ heap' = [heap EXCEPT ![l] = v]
                      /\ mine' = [mine EXCEPT ![l] = v]
                      /\ UNCHANGED <<slots, held, truth>>

\* an addition, or a setting: the grid takes a copy of what it is given
Give(g, l) == /\ Len(slots[g]) < MaxSlots
              /\ IF BUG = "keeps_what_it_was_given"
                 THEN /\ slots' = [slots EXCEPT ![g] = Append(@, l)]
                      /\ UNCHANGED heap
                 ELSE /\ Free # {}
                      /\ slots' = [slots EXCEPT ![g] = Append(@, New(1)[1])]
                      /\ heap' = [heap EXCEPT ![New(1)[1]] = heap[l]]
              /\ truth' = [truth EXCEPT ![g] = Append(@, mine[l])]
              /\ UNCHANGED <<held, mine>>
\* the same with nothing given: a fresh value, not the one all calls share
GiveNothing(g) == /\ Len(slots[g]) < MaxSlots
                  /\ LET v == CHOOSE v \in Vals : TRUE IN
                     /\ IF BUG = "default_is_shared"
                        THEN /\ slots' = [slots EXCEPT ![g] = Append(@, Default)]
                             /\ UNCHANGED heap
                        ELSE /\ Free # {}
                             /\ slots' = [slots EXCEPT ![g] = Append(@, New(1)[1])]
                             /\ heap' = [heap EXCEPT ![New(1)[1]] = v]
                     /\ truth' = [truth EXCEPT ![g] = Append(@, v)]
                  /\ UNCHANGED <<held, mine>>
\* a query hands out a copy
Ask(g, i) == /\ Cardinality(held) < MaxHeld
             /\ IF BUG = "hands_out_its_own"
                THEN /\ held' = held \cup {slots[g][i]}
                     /\ mine' = [mine EXCEPT ![slots[g][i]] = heap[slots[g][i]]]
                     /\ UNCHANGED heap
                ELSE /\ Free # {}
                     /\ held' = held \cup {New(1)[1]}
                     /\ heap' = [heap EXCEPT ![New(1)[1]] = heap[slots[g][i]]]
                     /\ mine' = [mine EXCEPT ![New(1)[1]] = heap[slots[g][i]]]
             /\ UNCHANGED <<slots, truth>>
\* gridding again, a removal: the grid works on its own objects, in place
Work(g, i, v) == /\ heap' = [l \in Locs |-> IF l = slots[g][i] \/ (BUG = "cache_by_name" /\ \E h \in Grids : i \in DOMAIN slots[h] /\ slots[h][i] = l) THEN v ELSE heap[l]]
                 /\ truth' = [truth EXCEPT ![g][i] = v]
                 /\ UNCHANGED <<slots, held, mine>>
\* in preparing its work the grid may use what it was given for nothing but reading
Sort(g, l) == /\ BUG = "works_in_what_it_was_given"
              /\ \E v \in Vals : heap' = [heap EXCEPT ![l] = v]
              /\ UNCHANGED <<slots, held, truth, mine>>
\* saving and opening: a second grid with the same content
Copy(g, h) == /\ g # h
              /\ LET k == Len(slots[g]) IN
                 IF BUG = "copy_shares"
                 THEN /\ slots' = [slots EXCEPT ![h] = slots[g]]
                      /\ UNCHANGED heap
                 ELSE /\ Cardinality(Free) >= k
                      /\ slots' = [slots EXCEPT ![h] = New(k)]
                      /\ heap' = [l \in Locs |-> IF \E i \in 1..k : New(k)[i] = l THEN heap[slots[g][CHOOSE i \in 1..k : New(k)[i] = l]] ELSE heap[l]]
              /\ truth' = [truth EXCEPT ![h] = truth[g]]
              /\ UNCHANGED <<held, mine>>

Next == /\ n < MaxOps
        /\ n' = n + 1
        /\ \/ \E v \in Vals : Make(v)
           \/ \E l \in held : Forget(l) \/ \E v \in Vals : CallerWrites(l, v)
           \/ \E g \in Grids : \/ \E l \in held : Give(g, l) \/ Sort(g, l)
                               \/ GiveNothing(g)
                               \/ \E i \in DOMAIN slots[g] : Ask(g, i) \/ \E v \in Vals : Work(g, i, v)
                               \/ \E h \in Grids : Copy(g, h)
Spec == Init /\ [][Next]_vars

TypeOK == heap \in [Locs -> Vals] /\ held \subseteq Locs /\ \A g \in Grids : Ran(slots[g]) \subseteq Locs /\ Len(slots[g]) = Len(truth[g])
\* every grid is what its own history made of it
OwnHistory == \A g \in Grids : \A i \in DOMAIN slots[g] : heap[slots[g][i]] = truth[g][i]
\* what the caller handed in or was given changes by the caller's hand only
CallersOwn == \A l \in held : heap[l] = mine[l]
\* why: nothing is shared
Separate == /\ \A g \in Grids : /\ Ran(slots[g]) \cap (held \cup {Default}) = {}
                                /\ Cardinality(Ran(slots[g])) = Len(slots[g])
            /\ \A g, h \in Grids : g # h => Ran(slots[g]) \cap Ran(slots[h]) = {}
\* a step changes at most one grid
OneAtATime == [][Cardinality({g \in Grids : [i \in DOMAIN slots[g] |-> heap[slots[g][i]]] # [i \in DOMAIN slots'[g] |-> heap'[slots'[g][i]]]}) <= 1]_vars
=============================================================================
