----------------------------------- MODULE Lp -----------------------------------
(* Linear prediction: normal equations, prediction error, cepstral recursion.    *)
EXTENDS Flt

\* Predictor of one frame with `order` coefficients (the leading 1 included).
Lpc(f, order) ==
  LET r == Lags(f, order) IN
  IF FEq(At(r, 0), F(0)) THEN [a |-> Cat(<<F(1)>>, Const(order - 1, F(0))), e |-> F(0), r |-> r, rc |-> F(1)]
  ELSE LET a == Cat(<<F(1)>>, ToeplitzSolve(r, FNeg(Cut(r, 1, order - 1))))
       IN [a |-> a, e |-> FAbs(Dot(r, a)), r |-> r, rc |-> ToeplitzRcond(r, order - 1)]

\* left-hand side of the i-th normal equation for coefficients a, and its natural magnitude
YwRow(r, a, i) == Tab(N(a), LAMBDA j : At(r, IF i > j THEN i - j ELSE j - i) (.) At(a, j))
\* err: how far rounding may have moved a coefficient
SolvesWithin(r, a, tol, err) ==
  \A i \in 1..(N(a) - 1) : LET t == YwRow(r, a, i) IN FAbs(Sum(t)) \preceq ((tol (.) Sum(FAbs(t))) (+) (err (.) Sum(FAbs(r))))
SolvesYuleWalker(r, a, tol) == SolvesWithin(r, a, tol, D("1e-13") (.) MaxAbs(a))

\* Cepstral recursion of a model of length p = N(a) into n coefficients.
RECURSIVE LpCepAux(_, _, _)
LpCepAux(a, n, c) ==
  LET m == N(c)  p == N(a)  lo == IF m >= p THEN m - p + 1 ELSE 1
      s == Sum(Tab(IF m - lo > 0 THEN m - lo ELSE 0, LAMBDA t : LET k == lo + t IN (F(k) (/) F(m)) (.) (At(c, k) (.) At(a, m - k))))
  IN IF m = n THEN c ELSE LpCepAux(a, n, Cat(c, <<IF m < p THEN At(a, m) (+) s ELSE s>>))
LpCepstrum(a, e, n) == LpCepAux(a, n, <<Ln(ZeroToEps(F(e)))>>)

\* The recursion read backwards: the model a cepstrum (n = N(c) <= p) came from.
RECURSIVE LpModelAux(_, _)
LpModelAux(c, a) ==
  LET m == N(a)
      s == Sum(Tab(IF m > 1 THEN m - 1 ELSE 0, LAMBDA t : LET k == t + 1 IN (F(k) (/) F(m)) (.) (At(c, k) (.) At(a, m - k))))
  IN IF m = N(c) THEN a ELSE LpModelAux(c, Cat(a, <<At(c, m) (-) s>>))
LpModel(c) == LpModelAux(c, <<F(1)>>)
\* what rounding may do to LpModel: the same recursion on magnitudes
LpModelErr(c) == D("1e-14") (.) MaxAbs(LpModel(FNeg(FAbs(c))))

\* ---- auditory loudness curve shared by BFCC and PLP
Loudness(w) == LET w2 == w (.) w IN
  ((w2 (+) D("56.8e6")) (.) (w2 (.) w2)) (/) (((w2 (+) D("6.3e6")) (.) (w2 (+) D("0.38e9"))) (.) (((w2 (.) w2) (.) w2) (+) D("9.58e26")))
IntensityPower(w) == FPow(FAbs(Loudness(w)), F(1) (/) F(3))

\* ---- RASTA filtering of one trajectory
RastaRow(x) == LET num(t) == (((F(2) (.) At(x, t)) (+) At(x, t - 1)) (-) (At(x, t - 3) (+) (F(2) (.) At(x, t - 4)))) (/) F(10)
               IN IF N(x) <= 4 THEN Const(N(x), F(0)) ELSE
                  Cat(Const(4, F(0)),
                      Cut(Scan(LAMBDA y, t : num(t) (+) (D("0.94") (.) y), F(0), [k \in 1..(N(x) - 4) |-> k + 3]), 1, N(x) - 4))
Rasta(M) == Map(M, RastaRow)
=================================================================================
