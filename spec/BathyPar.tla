------------------------------ MODULE BathyPar -------------------------------
(***************************************************************************)
(* Gridding with a cluster: the tiles of the array are visited in order,   *)
(* those without changes are skipped in an update run, the others are      *)
(* collected until there is one for each core; the batch is sent out, each *)
(* worker grids its copy, in any order and at any speed, and the results   *)
(* are put back at the places they came from.  Every schedule has to end   *)
(* where the serial run ends.                                              *)
(* BUG plants a mistake, "" is the mechanism as it is.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Slots,     \* number of places in the array of tiles
          Cores,     \* possible numbers of cores
          BUG

NoTile == [id |-> 0, pend |-> FALSE, res |-> {}, disk |-> {}]
TileVals == {[id |-> 1, pend |-> p, res |-> rs, disk |-> rs] : p \in BOOLEAN, rs \in {{}, {2}, {4}}}
NewRes == 8  \* the resolution that is asked for

VARIABLES tiles,   \* the array of the grid
          start,   \* the array before the run
          run,     \* [clear, update, cores]
          cnt,     \* place of the next tile to visit
          batch,   \* the tiles collected, in order: <<tile, clear>>
          idx,     \* the places they came from
          flying,  \* results by position in the batch: 0 not taken, 1 in work, otherwise the gridded tile
          order,   \* positions in the order in which they were finished
          resl, carry, pc
vars == <<tiles, start, run, cnt, batch, idx, flying, order, resl, carry, pc>>

Grid1(t, clear) == [t EXCEPT !.pend = FALSE, !.res = (IF clear THEN {} ELSE t.res) \cup {NewRes}]
\* the serial run
Serial(t) == IF t.id = 0 THEN t
             ELSE IF run.update /\ ~run.clear /\ ~t.pend THEN t
             ELSE LET u == Grid1(t, run.clear \/ run.update) IN [u EXCEPT !.disk = u.res]
SerialResl == UNION {LET t == start[k] IN IF t.id = 0 THEN {} ELSE IF run.update /\ ~run.clear /\ ~t.pend THEN t.res ELSE {NewRes} : k \in 1..Slots}

Init == /\ \E f \in [1..Slots -> {NoTile} \cup TileVals] : start = [k \in 1..Slots |-> IF f[k].id = 0 THEN NoTile ELSE [f[k] EXCEPT !.id = k]]
        /\ tiles = start
        /\ \E c \in BOOLEAN, u \in BOOLEAN, n \in Cores : ~(c /\ u) /\ run = [clear |-> c, update |-> u, cores |-> n]
        /\ cnt = 1 /\ batch = <<>> /\ idx = <<>> /\ flying = <<>> /\ order = <<>> /\ resl = {} /\ carry = FALSE /\ pc = "visit"
Full == Len(batch) = run.cores
Visit ==
  /\ pc = "visit" /\ cnt <= Slots /\ ~Full
  /\ LET t == tiles[cnt]
         clear == run.clear \/ (BUG = "clear_carries_over" /\ carry)
     IN IF t.id = 0 THEN UNCHANGED <<batch, idx, resl, carry>>
        ELSE IF run.update /\ ~clear /\ ~t.pend
             THEN /\ resl' = IF BUG = "skipped_resolutions_lost" THEN resl ELSE resl \cup t.res
                  /\ UNCHANGED <<batch, idx, carry>>
             ELSE /\ batch' = Append(batch, <<t, clear \/ run.update>>)
                  /\ idx' = Append(idx, IF BUG = "holes_not_counted" THEN Cardinality({k \in 1..cnt : tiles[k].id # 0}) ELSE cnt)
                  /\ carry' = (carry \/ run.update)
                  /\ UNCHANGED resl
  /\ cnt' = cnt + 1
  /\ UNCHANGED <<tiles, start, run, flying, order, pc>>
Send == /\ pc = "visit" /\ (Full \/ (cnt > Slots /\ batch # <<>> /\ BUG # "last_batch_lost"))
        /\ flying' = [i \in DOMAIN batch |-> <<0>>] /\ order' = <<>> /\ pc' = "wait"
        /\ UNCHANGED <<tiles, start, run, cnt, batch, idx, resl, carry>>
Take(i) == /\ pc = "wait" /\ flying[i] = <<0>> /\ flying' = [flying EXCEPT ![i] = <<1>>]
           /\ UNCHANGED <<tiles, start, run, cnt, batch, idx, order, resl, carry, pc>>
Finish(i) == /\ pc = "wait" /\ flying[i] = <<1>>
             /\ flying' = [flying EXCEPT ![i] = <<2, Grid1(batch[i][1], batch[i][2])>>]
             /\ order' = Append(order, i)
             /\ UNCHANGED <<tiles, start, run, cnt, batch, idx, resl, carry, pc>>
\* results are gathered in the order of the batch, whatever the order in which they were finished
Gather == /\ pc = "wait" /\ \A i \in DOMAIN flying : Len(flying[i]) = 2
          /\ LET seq == IF BUG = "completion_order" THEN order ELSE [i \in DOMAIN batch |-> i]
                 res(j) == flying[seq[j]][2]
                 at == [k \in 1..Slots |-> {j \in 1..(IF Len(idx) < Len(seq) THEN Len(idx) ELSE Len(seq)) : idx[j] = k}]
             IN /\ tiles' = [k \in 1..Slots |-> IF at[k] = {} THEN tiles[k]
                                                ELSE LET u == res(CHOOSE j \in at[k] : \A i \in at[k] : j >= i)
                                                     IN [u EXCEPT !.disk = IF BUG = "not_saved" THEN @ ELSE u.res]]
                /\ resl' = IF BUG = "last_resolutions_only" THEN {NewRes} ELSE resl \cup {NewRes}
          /\ batch' = <<>>
          /\ idx' = IF BUG = "places_not_reset" THEN idx ELSE <<>>
          /\ flying' = <<>> /\ order' = <<>> /\ pc' = "visit"
          /\ UNCHANGED <<start, run, cnt, carry>>
End == pc = "visit" /\ cnt > Slots /\ (batch = <<>> \/ BUG = "last_batch_lost") /\ pc' = "done" /\ UNCHANGED <<tiles, start, run, cnt, batch, idx, flying, order, resl, carry>>
Next == Visit \/ Send \/ (\E i \in DOMAIN flying : Take(i) \/ Finish(i)) \/ Gather \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

LikeSerial == pc = "done" => /\ \A k \in 1..Slots : tiles[k] = LET t == start[k] IN Serial(t)
                             /\ resl = SerialResl
\* a tile is only ever put back at its own place
Home == \A k \in 1..Slots : tiles[k].id \in {0, k}
Ends == <>(pc = "done")
=============================================================================
