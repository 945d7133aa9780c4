---------------------------------- MODULE PnccMC ----------------------------------
(* The recursive stages of PNCC and the RASTA filter over every short trajectory of   *)
(* a few power levels (silence included): they never produce a negative power, they   *)
(* use no later frame, and the noise floor stays between what it saw.                 *)
EXTENDS PnccStages, Lp
CONSTANTS Frames0, Top
Levels == <<"0", "1e-6", "1", "50", "3e4">>
Traj == [1..Frames0 -> 1..Top]
VARIABLES a, b, upto       \* two channels; frames after `upto` may differ
PInit == a \in Traj /\ b \in Traj /\ upto = 0
PNext == upto < Frames0 /\ upto' = upto + 1 /\ UNCHANGED <<a, b>>
PSpec == PInit /\ [][PNext]_<<a, b, upto>>
Mat(f, g) == Tab(Frames0, LAMBDA m : <<D(Levels[f[m + 1]]), D(Levels[g[m + 1]])>>)
Q == Mat(a, b)
\* the same up to frame `upto`, something else after it
Later == Mat([n \in 1..Frames0 |-> IF n <= upto THEN a[n] ELSE (a[n] % Top) + 1], [n \in 1..Frames0 |-> IF n <= upto THEN b[n] ELSE Top + 1 - b[n]])
Same(u, v) == \A m \in 1..upto : CloseE(u[m], v[m], D("1e-12"), D("1e-300"))
Suppress(M) == LET le == Lowpass(M)  Q0 == HalfWave(M (-) le) IN Switch(M, le, Masking(Q0), Lowpass(Q0))
NonNeg == upto = 0 => /\ AllGe(Lowpass(Q), F(0)) /\ AllGe(Masking(Q), F(0)) /\ AllGe(Suppress(Q), F(0))
                      /\ AllGe(Smooth(Suppress(Q), Q), F(0)) /\ AllGe(MeanPowerNorm(Q), F(0)) /\ AllGe(MediumTime(Q), F(0))
Causal == /\ Same(Lowpass(Q), Lowpass(Later)) /\ Same(Masking(Q), Masking(Later)) /\ Same(Suppress(Q), Suppress(Later))
          /\ Same(MeanPowerNorm(Q), MeanPowerNorm(Later)) /\ Same(Smooth(Suppress(Q), Q), Smooth(Suppress(Later), Later))
\* the look-ahead of the medium-time power is two frames
Ahead == \A m \in 1..(upto - 2) : CloseE(MediumTime(Q)[m], MediumTime(Later)[m], D("1e-12"), D("1e-300"))
Floor1 == upto = 0 => \A j \in {0, 1} : LET t == Col(Q, j)  l == Col(Lowpass(Q), j) IN
          AllLe(l, MaxOf(t)) /\ AllGe(l, D("0.9") (.) MinOf(t))
RastaCausal == \A ch \in {0, 1} : LET x == Col(Q, ch)  y == Col(Later, ch) IN
               upto > 0 => CloseE(Cut(RastaRow(x), 0, upto), Cut(RastaRow(y), 0, upto), D("1e-12"), D("1e-300"))
RastaOffset == upto = 0 => CloseE(RastaRow(Col(Q, 0) (+) F(5)), RastaRow(Col(Q, 0)), D("1e-9"), D("1e-7"))
===================================================================================
