---------------------------------- MODULE YinMC ----------------------------------
(* The lag search as a transition system over every small difference function:      *)
(* it terminates, and stops at the bottom of the first dip below the threshold.     *)
EXTENDS Naturals, Sequences, Yin
CONSTANTS Len0, Levels
VARIABLES cm, lo, hi, thr, s
mcvars == <<cm, lo, hi, thr, s>>
ILt(a, b) == a < b
MInit == /\ cm \in [1..Len0 -> 0..Levels] /\ hi \in 1..Len0 /\ lo \in 0..(hi - 1) /\ thr \in 0..Levels
         /\ s = SearchInit(lo)
MStep == s.mode \in {"seek", "slide"} /\ s' = SearchStep(s, cm, hi, thr, ILt) /\ UNCHANGED <<cm, lo, hi, thr>>
MSpec == MInit /\ [][MStep]_mcvars /\ WF_mcvars(MStep)
C(t) == cm[t + 1]
Dips == {t \in lo..(hi - 1) : C(t) < thr}
First == CHOOSE t \in Dips : \A u \in Dips : t <= u
Result == s.mode \in {"done", "none"} =>
  IF Dips = {} THEN s.mode = "none" /\ s.tau = 0
  ELSE /\ s.mode = "done" /\ s.tau \in First..(hi - 1)
       /\ \A u \in First..(s.tau - 1) : C(u + 1) < C(u)          \* reached by descending
       /\ s.tau + 1 < hi => C(s.tau + 1) >= C(s.tau)             \* and cannot descend further
       /\ C(s.tau) < thr
InRange == s.mode # "none" => s.tau \in lo..hi
Terminates == <>(s.mode \in {"done", "none"})
===================================================================================
