------------------------------- MODULE MCBathy -------------------------------
EXTENDS Bathy
\* three leaves in two tiles of 4 (sub tiles of 2 in the variable resolution configuration); z in mm
SRCfg == [cube |-> TRUE, vr |-> FALSE, T |-> 64, S |-> 64, ssz |-> 0, ox |-> 0, oy |-> 0, tv |-> TRUE, th |-> FALSE, bs |-> FALSE]
VRCfg == [cube |-> TRUE, vr |-> TRUE, T |-> 64, S |-> 32, ssz |-> 32, ox |-> 0, oy |-> 0, tv |-> TRUE, th |-> FALSE, bs |-> FALSE]
P == << <<3, 5, 15000, 10, 0>>, <<3, 5, 16000, 20, 0>>, <<40, 5, 25000, 30, 0>>, <<40, 9, 5000, 40, 0>>, <<70, 5, 15000, 50, 0>> >>
Sources == [a |-> {{1, 3}}, b |-> {{2}}, c |-> {{4, 5}}]
SourcesVar == [a |-> {{1, 3}, {1}}, b |-> {{2}, {3}}, c |-> {{4, 5}}]
M1 == [epsg |-> 26917, vref |-> "w", mllw |-> FALSE, posup |-> FALSE, mint |-> 5, maxt |-> 7]
M2 == [M1 EXCEPT !.epsg = 32611]
M3 == [M1 EXCEPT !.vref = "v", !.epsg = 0, !.mint = 1, !.maxt = 3]
M4 == [M1 EXCEPT !.vref = "m1", !.mllw = TRUE]
M5 == [M1 EXCEPT !.vref = "m2", !.mllw = TRUE, !.mint = 0, !.maxt = 9]
OneMeta == {M1}
Metas == {M1, M2, M3, M4, M5}
NoBad == {""}
Bads == {"", "nox"}
ResOne == {16, 32}
ResAll == {0, 16, 32, 48}
AlgOne == {"mean"}
AlgTwo == {"mean", "shoalest"}
AlgBad == {"mean", "shoalest", "median"}
ModeOne == {"depth"}
ModeTwo == {"depth", "density"}
\* cube: both uncertainties, soundings next to the borders of their leaf
SRCube == [SRCfg EXCEPT !.th = TRUE]
VRCube == [VRCfg EXCEPT !.th = TRUE]
PCube == << <<3, 5, 15000, 10, 1>>, <<62, 5, 16000, 20, 2>>, <<30, 31, 25000, 30, 3>>, <<33, 31, 5000, 40, 4>>, <<66, 5, 15000, 50, 5>> >>
AlgCube == {"mean", "cube"}
ParsTwo == {<<>>, <<"prior", "special", "input">>}
View == st
=============================================================================
