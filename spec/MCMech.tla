-------------------------------- MODULE MCMech --------------------------------
EXTENDS BathyMech
SRCfg == [vr |-> FALSE, T |-> 64, S |-> 64, ssz |-> 0, ox |-> 0, oy |-> 0, tv |-> TRUE, th |-> FALSE, bs |-> FALSE]
VRCfg == [vr |-> TRUE, T |-> 64, S |-> 32, ssz |-> 32, ox |-> 0, oy |-> 0, tv |-> TRUE, th |-> FALSE, bs |-> FALSE]
P == << <<3, 5, 15000, 10, 0>>, <<20, 5, 16000, 20, 0>>, <<40, 5, 25000, 30, 0>>, <<3, 9, 5000, 40, 0>>, <<70, 5, 15000, 50, 0>> >>
Sources == [a |-> {{1, 3}}, b |-> {{2}}, c |-> {{4, 5}}]
M1 == [epsg |-> 26917, vref |-> "w", mllw |-> FALSE, posup |-> FALSE, mint |-> 5, maxt |-> 7]
OneMeta == {M1}
NoBad == {""}
ResTwo == {16, 32}
ResAuto == {0, 16}
AlgOne == {"mean"}
AlgTwo == {"mean", "shoalest"}
ModeOne == {"depth"}
View == <<st, m, d, err>>
=============================================================================
