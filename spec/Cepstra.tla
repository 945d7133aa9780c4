-------------------------------- MODULE Cepstra --------------------------------
(* Operations on coefficient matrices (one row per frame).                      *)
EXTENDS Flt

NormTypes == {"mvn", "ms", "vn", "mn"}

\* lift: an integer; the identity for 0 and beyond 10
LifterWeights(n, lift) ==
  IF lift = 0 \/ lift > 10 THEN Const(n, F(1))
  ELSE IF lift > 0 THEN Tab(n, LAMBDA i : IF i = 0 THEN F(1) ELSE FPow(F(i), F(lift)))
  ELSE LET L == F(0 - lift) IN F(1) (+) ((L (/) F(2)) (.) Sin((Pi (.) (Range0(n) (+) F(1))) (/) L))
Lifter(M, lift) == IF N(M) = 0 THEN M ELSE LET w == LifterWeights(N(M[1]), lift) IN Map(M, LAMBDA r : r (.) w)

ColMeans(M) == Map(Transpose(M), Mean)
Normalize(M, type) ==
  LET all == Flatten(M)  mu == ColMeans(M)
      centred == Map(M, LAMBDA r : r (-) mu)
  IN CASE type = "ms"  -> centred
       [] type = "mvn" -> centred (/) Std(all)
       [] type = "vn"  -> M (/) Std(all)
       [] type = "mn"  -> (M (-) Mean(all)) (/) (MaxOf(all) (-) MinOf(all))

\* slope-weighted sums along each row with replicated ends
Deltas(M, w) ==
  LET h == w \div 2  T == N(M[1])
      clip(t) == IF t < 0 THEN 0 ELSE IF t >= T THEN T - 1 ELSE t
  IN Map(M, LAMBDA r : Tab(T, LAMBDA t : Sum(Tab(2 * h + 1, LAMBDA k : F(k - h) (.) At(r, clip(t + k - h))))))

CepstrumOf(M, type, n) == Map(M, LAMBDA r : LET c == DctOrtho(r, type) IN IF n >= N(c) THEN c ELSE Cut(c, 0, n))
================================================================================
