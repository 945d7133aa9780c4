------------------------------ MODULE Descriptors ------------------------------
(* Spectral descriptors of a magnitude spectrum, on the bin frequencies |fftfreq|. *)
EXTENDS Flt

\* |k|*fs/n with k the signed bin number of an n-point FFT
AbsFftFreqs(n, fs) == Tab(n, LAMBDA k : (F(IF 2 * k < n THEN k ELSE n - k) (.) F(fs)) (/) F(n))
Moment(a, f, i) == Sum(a (.) FPow(f, F(i))) (/) Sum(a)
Central(a, f, i) == Sum(a (.) FPow(f (-) Moment(a, f, 1), F(i))) (/) Sum(a)
Centroid(a, fs, i) == Moment(a, AbsFftFreqs(N(a), fs), i)
Spread(a, fs)   == Sqrt(Central(a, AbsFftFreqs(N(a), fs), 2))
Skewness(a, fs) == LET f == AbsFftFreqs(N(a), fs) IN Central(a, f, 3) (/) FPow(Moment(a, f, 2), F(3))
Kurtosis(a, fs) == LET f == AbsFftFreqs(N(a), fs) IN Central(a, f, 4) (/) FPow(Moment(a, f, 2), F(4))
Entropy(a) == LET q == a (/) Sum(a) IN FNeg(Sum(q (.) Ln(ZeroToEps(q)))) (/) Ln(F(N(a)))
Flatness(a) == Exp(Mean(Ln(a))) (/) Mean(a)
Flux(a, p) == LET d == FAbs(Cut(a, 1, N(a) - 1) (-) Cut(a, 0, N(a) - 1)) IN FPow(Sum(FPow(d, F(p))), F(1) (/) F(p))
\* first bin whose cumulated magnitude reaches k times the total; eps-close bins are both acceptable
RolloffOk(i, a, k) == LET c == CumSum(a)  t == k (.) Sum(a)  eps == D("1e-9") (.) Sum(a) IN
  /\ 0 <= i /\ i < N(a)
  /\ (t (-) eps) \preceq At(c, i)
  /\ i > 0 => At(c, i - 1) \prec (t (+) eps)
================================================================================
