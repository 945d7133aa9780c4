---------------------------------- MODULE Flt ----------------------------------
(* Real numbers and finite sequences of them, as the rest of the specification  *)
(* uses them.  A primitive (marked P) has no body TLC could evaluate: TLC       *)
(* evaluates it in IEEE-754 double arithmetic through java/spafe/FltOps.java.   *)
(* The operators that are only accelerated there (FFT, DCT, matrix products,    *)
(* ...) have their defining formula here as XxxDef, and FltSelfTest.tla makes   *)
(* TLC compare both.                                                            *)
(* All indices in this module are 0-based positions, as in the formulas of the  *)
(* signal-processing literature: At(s,0) is the first element.                  *)
EXTENDS Naturals, Integers, Sequences

Prim == CHOOSE p : TRUE

\* --- numbers; every arithmetic operator lifts pointwise to sequences (and to
\* --- sequences of sequences), a number combining with each entry.
FAdd(a, b) == Prim  FSub(a, b) == Prim  FMul(a, b) == Prim  FDiv(a, b) == Prim
FPow(a, b) == Prim  FMax(a, b) == Prim  FMin(a, b) == Prim  FAtan2(y, x) == Prim
FNeg(a) == Prim  FAbs(a) == Prim  Sqrt(a) == Prim  Exp(a) == Prim
Ln(a) == Prim  Log10(a) == Prim  Sin(a) == Prim  Cos(a) == Prim
Tan(a) == Prim  Atan(a) == Prim  Sinh(a) == Prim  Arsinh(a) == Prim
BesselI0(a) == Prim  ZeroToEps(a) == Prim  FFloor(a) == Prim  Round3(a) == Prim
a (+) b == FAdd(a, b)
a (-) b == FSub(a, b)
a (.) b == FMul(a, b)
a (/) b == FDiv(a, b)
a ^^ b == FPow(a, b)
F(i) == Prim  \* the integer i as a real
D(str) == Prim  \* decimal literal
Pi == Prim
FLt(a, b) == Prim  FLe(a, b) == Prim  FEq(a, b) == Prim
a \prec b == FLt(a, b)
a \preceq b == FLe(a, b)
Floor(a) == Prim  \* to Int
Trunc(a) == Prim  \* to Int, towards zero
Ceil(a) == Prim  \* to Int

\* --- sequences
Tab(n, Op(_)) == [k \in 1..n |-> Op(k - 1)]
N(s) == Len(s)
At(s, i) == s[i + 1]
Map(s, Op(_)) == [k \in 1..Len(s) |-> Op(s[k])]
Map2(s, t, Op(_, _)) == [k \in 1..Len(s) |-> Op(s[k], t[k])]
Filter(s, Op(_)) == SelectSeq(s, Op)
Scan(Op(_, _), init, s) == Prim  \* <<init, Op(init,s[1]), Op(Op(init,s[1]),s[2]), ...>>
Fold(Op(_, _), init, s) == Prim
Cut(s, i, n) == SubSeq(s, i + 1, i + n)
Cat(s, t) == s \o t
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Const(n, c) == [k \in 1..n |-> F(c)]
Range0(n) == [k \in 1..n |-> F(k - 1)]
Sum(s) == Fold(FAdd, F(0), s)
Dot(s, t) == Sum(s (.) t)
MatVec(m, v) == Map(m, LAMBDA r : Dot(r, v))
MulT(a, b) == Map(a, LAMBDA r : MatVec(b, r))
Transpose(m) == IF N(m) = 0 THEN <<>> ELSE Tab(N(m[1]), LAMBDA j : Map(m, LAMBDA r : At(r, j)))
Flatten(x) == Prim
CumSum(s) == Prim
MaxOf(s) == Prim  MinOf(s) == Prim  ArgMax(s) == Prim  ArgMin(s) == Prim
MapRows(m, Op(_)) == Map(m, Op)
Col(m, j) == Map(m, LAMBDA r : At(r, j))
Mean(s) == Sum(s) (/) N(s)
Std(s) == LET f == s (-) Mean(s) IN Sqrt(Mean(f (.) f))

\* --- transforms (accelerated; definitions in FltSelfTest)
Dft(x, n) == Prim  \* <<re, im>>, x cut or zero-padded to n points
CDft(re, im, n) == Prim
IDft(re, im, n) == Prim
DctOrtho(x, type) == Prim
Lfilter(b, a, x) == Prim
Lags(x, p) == Prim
ToeplitzSolve(r, b) == Prim
ToeplitzRcond(r, n) == Prim

\* --- total comparisons with an implementation's result
CloseE(a, b, rtol, atol) == Prim  \* entry by entry
CloseA(a, b, rtol) == Prim  \* relative to the largest entry of b
CloseC(a, b, rtol, atol) == Prim  \* relative to the largest entry of the column, at least atol times the largest of all
SameBits(a, b) == Prim
MaxDiff(a, b) == Prim
MaxAbs(a) == Prim
AllFinite(a) == Prim
AllGe(a, c) == Prim
AllLe(a, c) == Prim
Shape(a) == Prim
IsNum(a) == Prim
IsStr(a) == Prim
IsTrue(a) == Prim
IsRec(a) == Prim
StrEq(a, b) == Prim
AnyEq(a, b) == Prim
NearAny(a, b, rtol) == Prim  \* same structure; numbers relative to the largest of their row; NaN equals NaN
Fmt1(a) == Prim
ParseNum(s) == Prim
Guarded(Op(_)) == Op(0)

\* --- environment of a TLC run
Env(k) == Prim
EnvInt(k) == Prim
LoadTrace(path) == Prim
EmitTo(path, v) == Prim
================================================================================
