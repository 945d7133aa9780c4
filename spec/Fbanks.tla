--------------------------------- MODULE Fbanks ---------------------------------
(* The five filter banks.  A bank is a sequence of nfilts rows over the FFT bins *)
(* 0..nfft/2; XxxCenters gives the centre frequencies on the bank's own scale.   *)
EXTENDS Converters, Preproc

BankKinds == {"mel", "imel", "lin", "bark", "gamma"}
Scales == {"constant", "ascendant", "descendant"}
BinFreqs(nfft, fs) == (Range0(Bins(nfft)) (.) F(fs)) (/) F(nfft)

\* ---- triangular banks
TriRow(f, lo, c, hi) == FMax(F(0), FMin((f (-) lo) (/) (c (-) lo), (hi (-) f) (/) (hi (-) c)))
\* nfilts+2 points evenly spaced on the scale between the band edges, in Hz.
MelPoints(p) == LET l == HzToMel(p.low, p.ap)  h == HzToMel(p.high, p.ap) IN
                l (+) (((h (-) l) (/) F(p.nfilts + 1)) (.) Range0(p.nfilts + 2))
LinPoints(p) == p.low (+) (((p.high (-) p.low) (/) F(p.nfilts + 1)) (.) Range0(p.nfilts + 2))
TriBank(pts, p) == LET f == BinFreqs(p.nfft, p.fs) IN
                   Tab(p.nfilts, LAMBDA j : TriRow(f, At(pts, j), At(pts, j + 1), At(pts, j + 2)))
Inner(pts) == Cut(pts, 1, N(pts) - 2)
MelBank(p)  == TriBank(MelToHz(MelPoints(p), p.ap), p)
MelCenters(p) == Inner(MelPoints(p))
LinBank(p)  == TriBank(LinPoints(p), p)
LinCenters(p) == Inner(LinPoints(p))
\* mirrored about the middle of the band: the value at f is the mel triangle's value at low+high-f
ImelBank(p) == LET pts == MelToHz(MelPoints(p), p.ap)  f == (p.low (+) p.high) (-) BinFreqs(p.nfft, p.fs) IN
               Tab(p.nfilts, LAMBDA j : TriRow(f, At(pts, j), At(pts, j + 1), At(pts, j + 2)))
ImelCenters(p) == HzToMel((p.low (+) p.high) (-) Inner(MelToHz(MelPoints(p), p.ap)), p.ap)

\* ---- bark bank
CriticalBand(d) == IF d \prec D("-1.3") \/ D("2.5") \prec d THEN F(0)
                   ELSE IF d \preceq D("-0.5") THEN FPow(F(10), D("2.5") (.) (d (+) D("0.5")))
                   ELSE IF d \prec D("0.5") THEN F(1)
                   ELSE FPow(F(10), FNeg(d (-) D("0.5")))
BarkCenters(p) == LET l == HzToBark(p.low, p.ap)  h == HzToBark(p.high, p.ap) IN
                  IF p.nfilts = 1 THEN <<l>> ELSE l (+) (((h (-) l) (/) F(p.nfilts - 1)) (.) Range0(p.nfilts))
\* real-valued position, in bins of the bark bank's own axis, of a bark frequency
BarkPos(b, p) == (F(p.nfft + 1) (.) BarkToHz(b, p.ap)) (/) F(p.fs)
BarkRange(p) == LET c == BarkCenters(p) IN <<Floor(BarkPos(At(c, 0), p)), Floor(BarkPos(At(c, p.nfilts - 1), p))>>
BarkAxis(p) == HzToBark((Range0(Bins(p.nfft)) (.) F(p.fs)) (/) F(p.nfft + 1), p.ap)
BarkBank(p) == LET c == BarkCenters(p)  r == BarkRange(p)  z == BarkAxis(p) IN
  Tab(p.nfilts, LAMBDA j : Tab(Bins(p.nfft), LAMBDA i :
      IF r[1] <= i /\ i < r[2] THEN CriticalBand(At(z, i) (-) At(c, j)) ELSE F(0)))
\* The two discontinuities (the ends of the bin range and the cut-offs of the curve) may fall on
\* either side within rounding error; a bank is admissible if every entry is right on one side.
Nearly(x, y) == FAbs(x (-) y) \preceq D("1e-7")
BarkAdmissible(B, p) ==
  LET c == BarkCenters(p)  z == BarkAxis(p)
      u0 == BarkPos(At(c, 0), p)  u1 == BarkPos(At(c, p.nfilts - 1), p)
      E == BarkBank(p)
      \* bin i may be at the very edge of the range
      edge(i) == \/ Nearly(u0, F(i + 1)) \/ Nearly(u1, F(i + 1)) \/ Nearly(u0, F(i)) \/ Nearly(u1, F(i))
      ok(j, i) == LET b == At(At(B, j), i)  d == At(z, i) (-) At(c, j)  v == At(At(E, j), i) IN
          \/ CloseE(b, v, D("1e-9"), D("1e-12"))
          \/ edge(i) /\ (FEq(b, F(0)) \/ CloseE(b, CriticalBand(d), D("1e-9"), D("1e-12")))
          \/ Nearly(d, D("-1.3")) /\ (FEq(b, F(0)) \/ CloseE(b, D("0.01"), D("1e-5"), F(0)))
          \/ Nearly(d, D("2.5")) /\ (FEq(b, F(0)) \/ CloseE(b, D("0.01"), D("1e-5"), F(0)))
  IN /\ Shape(B) = <<p.nfilts, Bins(p.nfft)>>
     /\ \/ CloseE(B, E, D("1e-9"), D("1e-12"))
        \/ \A j \in 0..(p.nfilts - 1) : \A i \in 0..(Bins(p.nfft) - 1) : ok(j, i)

\* ---- gammatone bank
EarQ == D("9.26449")
MinBW == D("24.7")
GammaCenters(p) == LET c == EarQ (.) MinBW
                       m == F(1) (-) (Range0(p.nfilts) (/) F(p.nfilts))   \* nfilts/nfilts ... 1/nfilts
                   IN ((p.high (+) c) (.) Exp(m (.) (Ln(p.low (+) c) (-) Ln(p.high (+) c)))) (-) c
\* |H| up to a constant: four real zeros A1..A4, a conjugate pole pair of multiplicity four
GammaRow(fc, p) ==
  LET T == F(1) (/) F(p.fs)
      o == IF "order" \in DOMAIN p THEN F(p.order) ELSE F(4)
      erb == FPow(FPow(fc (/) EarQ, o) (+) FPow(MinBW, o), F(1) (/) o)
      K == Exp(((D("1.019") (.) F(2)) (.) Pi) (.) (erb (.) T))
      w == ((F(2) (.) fc) (.) Pi) (.) T
      smax == Sqrt(F(3) (+) Sqrt(F(8)))  smin == Sqrt(F(3) (-) Sqrt(F(8)))
      A(s) == (Cos(w) (+) (s (.) Sin(w))) (/) K
      th == ((F(2) (.) Pi) (.) Range0(Bins(p.nfft))) (/) F(p.nfft)
      ur == Cos(th)  ui == Sin(th)
      pr == Cos(w) (/) K  pim == Sin(w) (/) K
      sq(re, im) == (re (.) re) (+) (im (.) im)
      zero(s) == sq(ur (-) A(s), ui)
      num == ((zero(smax) (.) zero(FNeg(smax))) (.) zero(smin)) (.) zero(FNeg(smin))
      den == sq(ur (-) pr, ui (-) pim) (.) sq(ur (-) pr, ui (+) pim)
      h == Sqrt(num) (/) ((den (.) den))
  IN h (/) MaxOf(h)
GammaBank(p) == Map(GammaCenters(p), LAMBDA fc : GammaRow(fc, p))
GammaErbCenters(p) == HzToErb(GammaCenters(p), "Glasberg")

\* ---- scaling: a ramp over the filters in order of increasing frequency
Ramp(scale, n) == CASE scale = "constant" -> Const(n, F(1))
                    [] scale = "ascendant" -> (Range0(n) (+) F(1)) (/) F(n)
                    [] scale = "descendant" -> (F(n) (-) Range0(n)) (/) F(n)
\* rows of the inverse-mel bank come in decreasing order of frequency
RowRamp(kind, scale, n) == IF kind = "imel" THEN Rev(Ramp(scale, n)) ELSE Ramp(scale, n)
ScaleRows(B, w) == Map2(B, w, LAMBDA r, c : r (.) c)

UnitBank(kind, p) == CASE kind = "mel" -> MelBank(p) [] kind = "imel" -> ImelBank(p) [] kind = "lin" -> LinBank(p)
                       [] kind = "bark" -> BarkBank(p) [] kind = "gamma" -> GammaBank(p)
Centers(kind, p) == CASE kind = "mel" -> MelCenters(p) [] kind = "imel" -> ImelCenters(p) [] kind = "lin" -> LinCenters(p)
                      [] kind = "bark" -> BarkCenters(p) [] kind = "gamma" -> GammaErbCenters(p)
Bank(kind, p, scale) == ScaleRows(UnitBank(kind, p), RowRamp(kind, scale, p.nfilts))
=================================================================================
