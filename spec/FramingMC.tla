-------------------------------- MODULE FramingMC --------------------------------
(* Cutting a signal into frames, as a walk of a window over it: advance by the hop  *)
(* while the window still fits.  Every signal length, window and hop up to MaxN.    *)
EXTENDS Naturals, Sequences, FiniteSets, Preproc
CONSTANT MaxN
VARIABLES len, L, S, pos, out       \* out: starts of the frames cut so far
fvars == <<len, L, S, pos, out>>
FInit == len \in 1..MaxN /\ L \in 1..len /\ S \in 1..L /\ pos = 0 /\ out = <<>>
Cut1 == pos + L <= len /\ out' = Append(out, pos) /\ pos' = pos + S /\ UNCHANGED <<len, L, S>>
FSpec == FInit /\ [][Cut1]_fvars /\ WF_fvars(Cut1)
Finished == pos + L > len
InSignal == \A n \in 1..Len(out) : out[n] >= 0 /\ out[n] + L <= len
Starts == \A n \in 1..Len(out) : out[n] = (n - 1) * S
CountOk == Finished => Len(out) = FrameCount(len, L, S)
Covered == {out[n] + j : n \in 1..Len(out), j \in 0..(L - 1)}
\* with a hop no longer than the window every sample before the end of the last frame is in some frame,
\* and what is left over could not have filled another frame
TailOnly == Finished => /\ Covered = 0..((Len(out) - 1) * S + L - 1)
                        /\ len - Cardinality(Covered) < S
\* appending samples only appends frames; dropping a hop shifts them
Extends == Finished => \A more \in 0..3 : FrameCount(len + more, L, S) >= Len(out)
Shifts  == (Finished /\ len >= L + S) => FrameCount(len - S, L, S) = Len(out) - 1
Ends == <>Finished
==================================================================================
