---------------------------------- MODULE Cqt ----------------------------------
(* Constant-Q transform.                                                        *)
EXTENDS Preproc

\* p: fs, low, high, nfft, octaves, bins, win_type, thr, f0, q
CqtPitches(p) == Tab(p.octaves * p.bins, LAMBDA k : F(p.f0) (.) FPow(F(2), F(k) (/) F(p.bins)))
CqtQ(p) == F(p.q) (/) (FPow(F(2), F(1) (/) F(p.bins)) (-) F(1))
CqtLen(f, p) == Ceil((CqtQ(p) (.) F(p.fs)) (/) f)
CqtFreqs(p) == Filter(CqtPitches(p), LAMBDA f : p.low \preceq f /\ f \preceq p.high /\ CqtLen(f, p) <= p.nfft)
\* a window length within rounding error of an integer, or a pitch on a band edge, is not decided
CqtFragile(p) == \E k \in 1..(p.octaves * p.bins) :
  LET f == At(CqtPitches(p), k - 1)  u == (CqtQ(p) (.) F(p.fs)) (/) f  v == u (-) FFloor(u) IN
  \/ (v \prec D("1e-9") \/ F(1) (-) v \prec D("1e-9")) /\ ~FEq(v, F(0))
  \/ (FAbs(f (-) p.low) \prec D("1e-6")) /\ ~FEq(f, p.low)
  \/ (FAbs(f (-) p.high) \prec D("1e-6")) /\ ~FEq(f, p.high)

\* spectrum of the centred, tapered, unit-gain complex exponential at pitch f; small values dropped
CqtKernel(f, p) ==
  LET n == CqtLen(f, p)  st == (p.nfft - n) \div 2
      t == Taper(p.win_type, n) (/) F(n)
      ph == ((F(2) (.) Pi) (.) (f (/) F(p.fs))) (.) Range0(n)
      pad(v) == Cat(Cat(Const(st, F(0)), v), Const(p.nfft - st - n, F(0)))
      K == CDft(pad(t (.) Cos(ph)), pad(t (.) Sin(ph)), p.nfft)
      m == Modulus(K)
      keep == Map(m, LAMBDA v : IF v \preceq p.thr THEN F(0) ELSE F(1))
  IN <<K[1] (.) keep, K[2] (.) keep>>

\* a kernel that lies wholly in the zero padding behind a frame of L samples, with nothing dropped of it: its
\* correlation is zero, so a computed value is nothing but rounding
CqtBlindAt(p, L, f) == /\ (p.nfft - CqtLen(f, p)) \div 2 >= L - 2
                       /\ FEq(p.thr, F(0)) \/ F(0) \prec MinOf(Modulus(CqtKernel(f, p)))
CqtBlind(p, L) == LET fs == CqtFreqs(p) IN \E k \in 0..(N(fs) - 1) : CqtBlindAt(p, L, At(fs, k))
CqtAllBlind(p, L) == LET fs == CqtFreqs(p) IN \A k \in 0..(N(fs) - 1) : CqtBlindAt(p, L, At(fs, k))

\* <<re, im>> matrices, one row per pitch and one column per frame
CqtOf(frames, p) ==
  LET K == Map(CqtFreqs(p), LAMBDA f : CqtKernel(f, p))
      X == Map(frames, LAMBDA f : Dft(f, p.nfft))
      re(k, x) == (Dot(x[1], k[1]) (+) Dot(x[2], k[2])) (/) F(p.nfft)
      im(k, x) == (Dot(x[2], k[1]) (-) Dot(x[1], k[2])) (/) F(p.nfft)
  IN << Map(K, LAMBDA k : Map(X, LAMBDA x : re(k, x))), Map(K, LAMBDA k : Map(X, LAMBDA x : im(k, x))) >>

\* Fourier resampling of a real sequence to n points: keep the common low frequencies; the
\* component at the new (old) Nyquist rate is shared between its two aliases.
Resample(x, n) ==
  LET m == N(x)  X == Dft(x, m)  k == IF n < m THEN n ELSE m
      \* spectrum on the n-point grid: positive frequencies below k/2, the Nyquist term, zeros, mirror
      half == (k - 1) \div 2
      ny == k % 2 = 0
      term(part, sign) == Tab(n, LAMBDA i :
         IF i <= half THEN At(X[part], i)
         ELSE IF n - i <= half THEN sign (.) At(X[part], n - i)
         ELSE IF ny /\ (i = k \div 2 \/ n - i = k \div 2)
              THEN (IF part = 2 /\ (n = k) THEN F(0)
                    ELSE LET s == IF n > m THEN D("0.5") ELSE IF n < m THEN F(2) ELSE F(1)
                             v == s (.) At(X[part], k \div 2)
                         IN IF i = k \div 2 THEN v ELSE sign (.) v)
         ELSE F(0))
      Y == IDft(term(1, F(1)), term(2, F(-1)), n)
  IN Y[1] (.) (F(n) (/) F(m))
================================================================================
