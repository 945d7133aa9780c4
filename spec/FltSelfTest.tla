------------------------------- MODULE FltSelfTest -------------------------------
(* The operators that java/spafe/FltOps.java accelerates, against their defining   *)
(* formulas in TLA+, on pseudo-random vectors of every small length and a few      *)
(* larger ones (prime, power of two, odd, even).                                   *)
EXTENDS Spafe, Butter

Seed == EnvInt("VERIF_SEED")
Vec(n, s) == Tab(n, LAMBDA k : Sin(F(((k + 1) * (k + 3) * 7 + 13 * k + s * 101 + Seed * 17) % 10007)))
Lens == (1..17) \cup {31, 32, 33, 60, 64, 100, 127, 128}

\* ------------------------------------------------------------------ definitions
RECURSIVE SumDef(_)
SumDef(s) == IF N(s) = 0 THEN F(0) ELSE SumDef(Cut(s, 0, N(s) - 1)) (+) At(s, N(s) - 1)
PadTo(x, n) == IF N(x) >= n THEN Cut(x, 0, n) ELSE Cat(x, Const(n - N(x), F(0)))
Angle(j, k, n) == (F(2 * ((j * k) % n)) (.) Pi) (/) F(n)
CDftDef(re, im, n, sg) ==
  LET r == PadTo(re, n)  i == PadTo(im, n)
      c(k) == Tab(n, LAMBDA j : Cos(Angle(j, k, n)))   s(k) == Tab(n, LAMBDA j : sg (.) Sin(Angle(j, k, n)))
  IN << Tab(n, LAMBDA k : SumDef((r (.) c(k)) (-) (i (.) s(k)))), Tab(n, LAMBDA k : SumDef((r (.) s(k)) (+) (i (.) c(k)))) >>
DftDef(x, n) == CDftDef(x, Const(N(x), F(0)), n, F(-1))
IDftDef(re, im, n) == LET Y == CDftDef(re, im, n, F(1)) IN << Y[1] (/) F(n), Y[2] (/) F(n) >>
\* orthonormal DCT of types 1..4
DctDef(x, ty) ==
  LET n == N(x)  w == Sqrt(F(2) (/) F(n))
      cosrow(k, Ph(_, _)) == Tab(n, LAMBDA j : Cos(Ph(j, k)))
  IN CASE ty = 1 -> LET e(j) == IF j = 0 \/ j = n - 1 THEN Sqrt(D("0.5")) ELSE F(1) IN
                    Tab(n, LAMBDA k : (Sqrt(F(2) (/) F(n - 1)) (.) e(k)) (.) SumDef(Tab(n, LAMBDA j : (e(j) (.) At(x, j)) (.) Cos((Pi (.) F(j * k)) (/) F(n - 1)))))
       [] ty = 2 -> Tab(n, LAMBDA k : (w (.) (IF k = 0 THEN Sqrt(D("0.5")) ELSE F(1))) (.) SumDef(Tab(n, LAMBDA j : At(x, j) (.) Cos((Pi (.) F((2 * j + 1) * k)) (/) F(2 * n)))))
       [] ty = 3 -> Tab(n, LAMBDA k : w (.) SumDef(Tab(n, LAMBDA j : ((IF j = 0 THEN Sqrt(D("0.5")) ELSE F(1)) (.) At(x, j)) (.) Cos((Pi (.) F((2 * k + 1) * j)) (/) F(2 * n)))))
       [] ty = 4 -> Tab(n, LAMBDA k : w (.) SumDef(Tab(n, LAMBDA j : At(x, j) (.) Cos((Pi (.) F((2 * k + 1) * (2 * j + 1))) (/) F(4 * n)))))
LagsDef(x, p) == Tab(p, LAMBDA k : IF k >= N(x) THEN F(0) ELSE SumDef(Cut(x, k, N(x) - k) (.) Cut(x, 0, N(x) - k)))
MulTDef(a, b) == Tab(N(a), LAMBDA i : Tab(N(b), LAMBDA j : SumDef(a[i + 1] (.) b[j + 1])))
RECURSIVE LfilterAux(_, _, _, _)
LfilterAux(b, a, x, y) ==
  LET n == N(y) IN
  IF n = N(x) THEN y
  ELSE LET num == SumDef(Tab(N(b), LAMBDA k : IF n - k >= 0 THEN At(b, k) (.) At(x, n - k) ELSE F(0)))
           den == SumDef(Tab(N(a) - 1, LAMBDA k : IF n - k - 1 >= 0 THEN At(a, k + 1) (.) At(y, n - k - 1) ELSE F(0)))
       IN LfilterAux(b, a, x, Cat(y, <<(num (-) den) (/) At(a, 0)>>))
LfilterDef(b, a, x) == LfilterAux(b, a, x, <<>>)

\* ------------------------------------------------------------------ comparisons
Eq(u, v) == CloseA(u, v, D("1e-11"))
EqC(u, v) == LET m == Sqrt(Dot(v[1], v[1]) (+) Dot(v[2], v[2])) (+) D("1e-3") IN
             CloseE(u[1], v[1], F(0), D("1e-11") (.) m) /\ CloseE(u[2], v[2], F(0), D("1e-11") (.) m)

VARIABLE n
SInit == n \in Lens
SNext == UNCHANGED n
SSpec == SInit /\ [][SNext]_n

X == Vec(n, 1)
Y == Vec(n, 2)
FftOk == /\ EqC(Dft(X, n), DftDef(X, n))
         /\ EqC(Dft(X, n + 3), DftDef(X, n + 3)) /\ (n > 2 => EqC(Dft(X, n - 2), DftDef(X, n - 2)))
         /\ EqC(CDft(X, Y, n), CDftDef(X, Y, n, F(-1))) /\ EqC(IDft(X, Y, n), IDftDef(X, Y, n))
         /\ EqC(IDft(Dft(X, n)[1], Dft(X, n)[2], n), <<X, Const(n, F(0))>>)
DctOk == \A ty \in 1..4 : (ty = 1 => n > 1) => Eq(DctOrtho(X, ty), DctDef(X, ty))
\* the basis is orthonormal: the transform keeps the norm
DctNorm == \A ty \in 1..4 : (ty = 1 => n > 1) => CloseE(Dot(DctOrtho(X, ty), DctOrtho(X, ty)), Dot(X, X), D("1e-11"), F(0))
LagOk == \A p \in {1, 2, 5, n, n + 3} : Eq(Lags(X, p), LagsDef(X, p))
\* a solution is one that satisfies the equations
ToepOk == LET p == IF n < 13 THEN n ELSE 13  r == Lags(X, p)  b == Cut(Y, 0, p)  s == ToeplitzSolve(r, b) IN
          (D("1e-6") \prec ToeplitzRcond(r, p)) =>
          CloseE(Tab(p, LAMBDA i : SumDef(Tab(p, LAMBDA j : At(r, IF i > j THEN i - j ELSE j - i) (.) At(s, j)))), b, D("1e-7"), D("1e-7"))
MatOk == LET A == Tab(3, LAMBDA i : Vec(n, i))  B == Tab(4, LAMBDA i : Vec(n, i + 7)) IN
         /\ \A i \in 1..3 : Eq(MulT(A, B)[i], MulTDef(A, B)[i])
         /\ Eq(Transpose(Transpose(A))[2], A[2]) /\ \A i \in 0..(n - 1) : FEq(At(Transpose(A)[i + 1], 1), At(A[2], i))
SeqOk == /\ CloseE(Sum(X), SumDef(X), D("1e-11"), D("1e-11"))
         /\ Eq(CumSum(X), Tab(n, LAMBDA k : SumDef(Cut(X, 0, k + 1))))
         /\ Eq(Rev(Rev(X)), X) /\ FEq(At(Rev(X), 0), At(X, n - 1))
         /\ FEq(At(X, ArgMax(X)), MaxOf(X)) /\ AllLe(X, MaxOf(X)) /\ FEq(At(X, ArgMin(X)), MinOf(X)) /\ AllGe(X, MinOf(X))
FilOk == LET b == <<D("0.2"), D("-0.3"), D("0.1")>>  a == <<D("1.5"), D("-0.4"), D("0.2")>> IN
         n > 0 => Eq(Lfilter(b, a, X), LfilterDef(b, a, X))
\* equalities stated in comments of other modules
PreOk == Eq(PreEmph(X, D("0.97")), PreEmphasis(X, D("0.97")))
\* LPC: the solution is the minimum of the residual energy (no coefficient can be moved to lower it)
Residual(a, r) == SumDef(Tab(N(a), LAMBDA i : At(a, i) (.) SumDef(YwRow(r, a, i))))
LpMin == LET m == Lpc(X, IF n < 5 THEN n ELSE 5)  e == Residual(m.a, m.r)
             moved(i, h) == Tab(N(m.a), LAMBDA j : IF j = i THEN At(m.a, j) (+) h ELSE At(m.a, j))
         IN D("1e-6") \prec m.rc =>
            /\ CloseE(e, m.e, D("1e-7"), D("1e-9") (.) At(m.r, 0))
            /\ \A i \in 1..(N(m.a) - 1) : e \preceq (Residual(moved(i, D("0.01")), m.r) (+) D("1e-9")) /\ e \preceq (Residual(moved(i, D("-0.01")), m.r) (+) D("1e-9"))
\* the cepstral recursion and its reading backwards
LpBack == LET m == Lpc(X, IF n < 9 THEN n ELSE 9) IN D("1e-6") \prec m.rc => Eq(LpModel(LpCepstrum(m.a, m.e, N(m.a))), m.a)
\* RASTA: superposition, and the recursion as a rational filter whose first four outputs are replaced by zero
RastaLin == n > 4 => CloseE(RastaRow(X (+) (F(2) (.) Y)), RastaRow(X) (+) (F(2) (.) RastaRow(Y)), D("1e-9"), D("1e-9"))
\* Fourier resampling to the same rate changes nothing; up and down again recovers the sequence
ResOk == /\ Eq(Resample(X, n), X) /\ Eq(Resample(Resample(X, 2 * n), n), X)
\* deltas of a constant are 0 and of a ramp constant inside
DelOk == LET M == <<Const(n, F(3)), Range0(n)>>  q == Deltas(M, 5) IN
         MaxAbs(q[1]) \preceq D("1e-12") /\ \A t \in 2..(n - 3) : FEq(At(q[2], t), F(10))
\* scale conversions undo each other
ConvOk == LET f == F(20 + 97 * n) IN \A sc \in {"mel", "bark", "erb"} : \A ap \in Approaches(sc) : CloseE(ToHz(sc, HzTo(sc, f, ap), ap), f, D("1e-9"), D("1e-8"))
==================================================================================
