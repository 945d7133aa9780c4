-------------------------------- MODULE Preproc --------------------------------
(* Signal conditioning: pre-emphasis, framing, tapering, short-time spectra.    *)
EXTENDS Flt

WinTypes == {"hanning", "bartlet", "kaiser", "blackman", "hamming"}
DefaultWindow == [win_len |-> D("0.025"), win_hop |-> D("0.01"), win_type |-> "hamming"]

PreEmphasis(x, c) == Tab(N(x), LAMBDA n : IF n = 0 THEN At(x, 0) ELSE At(x, n) (-) (c (.) At(x, n - 1)))
\* The same sequence built from two shifted copies (fast form; equality is checked in FltSelfTest).
PreEmph(x, c) == IF N(x) = 0 THEN x ELSE x (-) Cat(<<F(0)>>, c (.) Cut(x, 0, N(x) - 1))

FrameLen(win_len, fs) == Trunc(win_len (.) fs)
FrameCount(n, L, S) == ((n - L) \div S) + 1
Frames(x, L, S) == Tab(FrameCount(N(x), L, S), LAMBDA m : Cut(x, m * S, L))

\* Symmetric tapers of length L.
Taper(type, L) ==
  IF L = 1 THEN <<F(1)>> ELSE
  LET n == Range0(L)  M == F(L - 1)
      ph(k) == Cos((F(2 * k) (.) Pi) (.) (n (/) M))
      u == ((F(2) (.) n) (/) M) (-) F(1)
  IN CASE type = "hanning"  -> D("0.5") (-) (D("0.5") (.) ph(1))
       [] type = "hamming"  -> D("0.54") (-) (D("0.46") (.) ph(1))
       [] type = "blackman" -> (D("0.42") (-) (D("0.5") (.) ph(1))) (+) (D("0.08") (.) ph(2))
       [] type = "bartlet"  -> F(1) (-) FAbs(u)
       [] type = "kaiser"   -> BesselI0(F(14) (.) Sqrt(FMax(F(0), F(1) (-) (u (.) u)))) (/) BesselI0(F(14))
Tapered(frames, type, L) == LET t == Taper(type, L) IN Map(frames, LAMBDA f : t (.) f)

\* |FFT| on the bins 0..nfft/2 of one frame, cut or zero-padded to nfft.
Bins(nfft) == (nfft \div 2) + 1
HalfSpec(f, nfft) == LET X == Dft(f, nfft) IN <<Cut(X[1], 0, Bins(nfft)), Cut(X[2], 0, Bins(nfft))>>
Modulus(X) == Sqrt((X[1] (.) X[1]) (+) (X[2] (.) X[2]))
Magnitudes(f, nfft) == Modulus(HalfSpec(f, nfft))
Power(mag, nfft) == (mag (.) mag) (/) F(nfft)
\* phase in degrees, wrapped to [0, 360)
Phases(f, nfft) == LET X == HalfSpec(f, nfft) IN
  Map(FAtan2(X[2], X[1]) (.) (F(180) (/) Pi), LAMBDA p : IF p \prec F(0) THEN p (+) F(360) ELSE p)
================================================================================
