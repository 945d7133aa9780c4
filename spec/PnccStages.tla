------------------------------- MODULE PnccStages -------------------------------
(* The power-normalisation chain of PNCC on a matrix of channel powers           *)
(* (one row per frame).  Every recursive stage is given by its one-frame step.   *)
EXTENDS Flt

\* mean over the frames m-2..m+2, the missing ones counting as zero
MediumTimeM(P, M) == LET L == N(P) IN
  Tab(L, LAMBDA m : LET lo == IF m < M THEN 0 ELSE m - M  hi == IF m + M > L - 1 THEN L - 1 ELSE m + M IN
                    Fold(FAdd, F(0) (.) P[1], Cut(P, lo, hi - lo + 1)) (/) F(2 * M + 1))
MediumTime(P) == MediumTimeM(P, 2)

\* asymmetric low-pass: slow (0.999) when the input is above the envelope, fast (0.5) when below
LowpassStep(prev, in, a, b) == Map2(prev, in, LAMBDA o, x :
  IF o \preceq x THEN (a (.) o) (+) ((F(1) (-) a) (.) x) ELSE (b (.) o) (+) ((F(1) (-) b) (.) x))
LowpassAB(Q, a, b) == Scan(LAMBDA prev, in : LowpassStep(prev, in, a, b), D("0.9") (.) Q[1], Cut(Q, 1, N(Q) - 1))
Lowpass(Q) == LowpassAB(Q, D("0.999"), D("0.5"))

HalfWave(M) == FMax(F(0), M)

\* temporal masking: state <<peak, out>>
MaskStep(s, in, lam, mu) ==
  LET peak == s[1] IN
  << FMax(lam (.) peak, in),
     Map2(peak, in, LAMBDA p, x : IF (lam (.) p) \preceq x THEN x ELSE mu (.) p) >>
MaskingLM(Q, lam, mu) == Map(Scan(LAMBDA s, in : MaskStep(s, in, lam, mu), <<Q[1], Q[1]>>, Cut(Q, 1, N(Q) - 1)), LAMBDA s : s[2])
Masking(Q) == MaskingLM(Q, D("0.85"), D("0.2"))

\* excitation (power at least twice the envelope): masked signal, otherwise the floor
Switch(Q, le, tm, fl) == Tab(N(Q), LAMBDA m : Tab(N(Q[1]), LAMBDA l :
  IF (F(2) (.) At(At(le, m), l)) \preceq At(At(Q, m), l) THEN At(At(tm, m), l) ELSE At(At(fl, m), l)))

\* average of R/Q over the channels l-4..l+4 that exist
SmoothK(R, Q, k) == Map2(R, Q, LAMBDA r, q :
  LET g == r (/) ZeroToEps(q)  n == N(r) IN
  Tab(n, LAMBDA l : LET lo == IF l < k THEN 0 ELSE l - k  hi == IF l + k > n - 1 THEN n - 1 ELSE l + k IN
                    Sum(Cut(g, lo, hi - lo + 1)) (/) F(hi - lo + 1)))
Smooth(R, Q) == SmoothK(R, Q, 4)

\* running mean power, 1e-4 at the first frame
MeanPowers(T, lam) == Scan(LAMBDA mu, row : (lam (.) mu) (+) (((F(1) (-) lam) (/) F(N(row))) (.) Sum(row)),
                           D("1e-4"), Cut(T, 1, N(T) - 1))
MeanPowerNormK(T, lam, k) == LET mu == MeanPowers(T, lam) IN Tab(N(T), LAMBDA m : (k (.) At(T, m)) (/) At(mu, m))
MeanPowerNorm(T) == MeanPowerNormK(T, D("0.999"), F(1))
=================================================================================
