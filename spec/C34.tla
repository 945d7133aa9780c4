----------------------------------- MODULE C34 -----------------------------------
(* What is drawn.                                                                  *)
EXTENDS Scen
Fig(fn, a) == [figure |-> TRUE] @@ CallOf(fn, a)
\* ---------------------------------------------------------------- spectrograms
C34Plan == <<"r", "k", "g", "mul", "dbf", "x0", "x1", "y1", "cb", "cx">>
Thin(c) == c.k = 2500 \/ c.k = 1 \/ c.r = 1
C34Choice(p, c) == CASE p = "r" -> {1, 2, 7} [] p = "k" -> (CASE c.r = 1 -> {1, 12} [] c.r = 2 -> {2, 3, 12, 2500} [] OTHER -> {1, 3, 7, 12}) [] p = "g" -> {"pos", "power", "sparse", "zeros", "const", "noise"} [] p = "mul" -> IF Thin(c) THEN {"1"} ELSE {"1", "1e-12", "1e6"}
                     [] p = "dbf" -> {"dflt", "80", "20", "0.5", "200", "0"} [] p = "x0" -> IF Thin(c) THEN {"0"} ELSE {"0", "0.5"} [] p = "x1" -> {"2.5"} [] p = "y1" -> {"4000"} [] p = "cb" -> IF Thin(c) THEN {TRUE} ELSE BOOLEAN [] p = "cx" -> BOOLEAN
C34Session(c) ==
  <<[calls |-> <<Fig("show_spectrogram", [spectrogram |-> ("$mat" :> ([g |-> c.g, shape |-> <<c.r, c.k>>, seed |-> Seed0 + c.r * 13 + c.k, mul |-> D(c.mul)] @@ Opt(c.cx, [complex |-> TRUE]))),
        fs |-> 8000, xmin |-> D(c.x0), xmax |-> D(c.x1), ymin |-> D("10"), ymax |-> D(c.y1), xlabel |-> "t", ylabel |-> "f", title |-> "T1"] @@ Dec("dbf", c.dbf) @@ Opt(~c.cb, [colorbar |-> FALSE]))>>]>>
Mag(x) == IF IsRec(x) THEN Sqrt((x.re (.) x.re) (+) (x.im (.) x.im)) ELSE FAbs(x)
Decibels(M, dbf) ==
  LET amin == D("1e-10")  ref == FMax(amin, MaxOf(Flatten(M)))
      l == F(10) (.) Log10(FMax(amin, M) (/) ref)
  IN FMax(l, MaxOf(Flatten(l)) (-) dbf)
HasImage(f) == {n \in 1..Len(f.axes) : Len(f.axes[n].images) > 0 /\ f.axes[n].title # ""}
SpecImageOk(k) == LET a == k.a @@ [dbf |-> F(80)]  f == k.out.val IN
  \E n \in HasImage(f) : LET ax == f.axes[n]  im == ax.images[1] IN
     /\ CloseE(im.a, Decibels(Mag(a.spectrogram), F(a.dbf)), D("1e-9"), D("1e-9"))
     /\ CloseE(im.extent, <<F(a.xmin), F(a.xmax), F(a.ymin), F(a.ymax)>>, D("1e-12"), D("1e-12"))
     /\ im.origin = "lower" /\ ax.title = a.title /\ ax.xlabel = a.xlabel /\ ax.ylabel = a.ylabel
C34Clauses(s, e) == << Returned(s), Clause("spectrogram image", LAMBDA z : SpecImageOk(s.calls[1])), Clause("untouched", LAMBDA z : s.calls[1].mut = <<>>) >>

\* ---------------------------------------------------------------- features
FePlan == <<"r", "k", "g", "lo">>
FeChoice(p, c) == CASE p = "r" -> {1, 4, 5, 13, 30, 2500} [] p = "k" -> {1, 2, 5, 13} [] p = "g" -> {"noise", "ints", "const", "power"} [] p = "lo" -> {"c", "fortran", "view"}
FeSession(c) == <<[calls |-> <<Fig("show_features", [feats |-> ("$mat" :> [g |-> c.g, shape |-> <<c.r, c.k>>, seed |-> Seed0 + c.r, as |-> c.lo]), title |-> "T2", ylabel |-> "coef", xlabel |-> "frame"])>>]>>
FeClauses(s, e) == LET k == s.calls[1]  f == k.out.val IN
  << Returned(s), Clause("features image", LAMBDA z : \E n \in HasImage(f) : LET ax == f.axes[n] IN CloseE(ax.images[1].a, Transpose(k.a.feats), D("1e-12"), F(0)) /\ ax.images[1].origin = "lower"
                     /\ ax.title = "T2" /\ ax.xlabel = "frame" /\ ax.ylabel = "coef"),
     Clause("untouched", LAMBDA z : k.mut = <<>>) >>

\* ---------------------------------------------------------------- banks
BfPlan == <<"nfft", "n", "fs", "ty", "cf", "kind">>
BfChoice(p, c) == CASE p = "n" -> IF c.nfft = 64 THEN {1, 3, 24, 33} ELSE {1, 3, 24} [] p = "nfft" -> {64, 512} [] p = "fs" -> {1000, 8000, 44100} [] p = "ty" -> {"dflt", "mel", "bark", "gamma", "lin"} [] p = "cf" -> {"dflt", "on", "off"} [] p = "kind" -> {"bank", "rand"}
\* centres as a bank has them, between whole numbers, more than one at a place, or in no order
Centre(c, j) == CASE c.cf = "dflt" -> F(100 * j) [] c.fs = 8000 -> F(j) (.) D("10.237") [] c.fs = 1000 -> F(30 * (j \div 2)) (+) D("0.49") [] OTHER -> F(Rnd([seed |-> j], 93, 0, 20000)) (.) D("0.83")
BfSession(c) ==
  LET bins == Bins(c.nfft)  ty == IF c.ty = "dflt" THEN "mel" ELSE c.ty
      ctor == CtorOf(ty)
      m == IF c.kind = "bank" THEN ("$bank" :> [fn |-> ctor, a |-> [nfilts |-> c.n, nfft |-> c.nfft, fs |-> c.fs]]) ELSE ("$mat" :> [g |-> "pos", shape |-> <<c.n, bins>>, seed |-> Seed0 + 1])
  IN <<[ty |-> ty, calls |-> <<Fig("show_fbanks", [fbanks |-> m, center_freqs |-> ("$mat" :> [g |-> "vals", shape |-> <<c.n>>, v |-> [j \in 1..c.n |-> Centre(c, j)]]),
           ref_freqs |-> ("$mat" :> [g |-> "vals", shape |-> <<bins>>, v |-> [j \in 1..bins |-> (F((j - 1) * c.fs)) (/) F(c.nfft)]]), title |-> "T3", ylabel |-> "w", x1label |-> "hz", x2label |-> "sc"]
           @@ Opt(c.ty # "dflt", [fb_type |-> c.ty]) @@ Opt(c.cf # "dflt", [show_center_freqs |-> c.cf = "on"]))>>]>>
ConvOf(ty, f) == CASE ty = "mel" -> HzToMel(f, "Oshaghnessy") [] ty = "bark" -> HzToBark(f, "Wang") [] ty = "gamma" -> HzToErb(f, "Glasberg") [] OTHER -> f
LowerAx(f) == CHOOSE n \in 1..Len(f.axes) : f.axes[n].xlabel = "hz"
UpperAx(f) == CHOOSE n \in 1..Len(f.axes) : f.axes[n].xlabel = "sc"
CurvesOk(k) == LET f == k.out.val  ax == f.axes[LowerAx(f)] IN
  /\ Len(ax.lines) = N(k.a.fbanks) /\ ax.title = "T3" /\ ax.ylabel = "w"
  /\ \A j \in 1..Len(ax.lines) : CloseE(ax.lines[j].x, k.a.ref_freqs, D("1e-12"), D("1e-12")) /\ CloseE(ax.lines[j].y, k.a.fbanks[j], D("1e-12"), D("1e-15"))
TicksOk(s, k) == LET f == k.out.val  lo == f.axes[LowerAx(f)]  up == f.axes[UpperAx(f)] IN
  /\ CloseE(up.xbound, lo.xbound, D("1e-9"), D("1e-9"))
  /\ CloseE(up.xticks, lo.xticks, D("1e-9"), D("1e-9"))
  /\ Len(up.xticklabels) = N(up.xticks)
  /\ \A j \in 0..(N(up.xticks) - 1) : LET want == ConvOf(s.ty, At(up.xticks, j)) IN AllFinite(<<want>>) => FAbs(ParseNum(up.xticklabels[j + 1]) (-) want) \preceq D("0.0501")
LinesAt(s, k) == LET f == k.out.val  v == f.axes[LowerAx(f)].vlines \o f.axes[UpperAx(f)].vlines IN
  IF Has(k.a, "show_center_freqs") /\ ~k.a.show_center_freqs THEN Len(v) = 0
  ELSE LET at(i, j) == CloseE(At(v[i][1], 0), At(k.a.center_freqs, j - 1), D("1e-9"), D("1e-9")) IN
       /\ Len(v) = N(k.a.center_freqs)
       /\ \A j \in 1..Len(v) : (\E i \in 1..Len(v) : at(i, j)) /\ (\E i \in 1..Len(v) : at(j, i))
\* the labels alone
TkPlan == <<"ty", "k">>
TkChoice(p, c) == CASE p = "ty" -> {"mel", "bark", "gamma", "lin", "linear"} [] p = "k" -> 1..12
TkSession(c) == LET x(j) == CASE c.k = 1 -> F(-100 + 25 * j) [] c.k = 2 -> F(500 * j) [] c.k = 3 -> F(j) [] OTHER -> F(Rnd([seed |-> c.k * 31 + j], 5, -220, 30000)) (.) D("0.83") IN
  <<[ty |-> c.ty, calls |-> <<CallOf("tick_function", [X |-> ("$mat" :> [g |-> "vals", shape |-> <<12>>, v |-> [j \in 1..12 |-> x(j)]]), fb_type |-> c.ty])>>]>>
TkClauses(s, e) == LET k == s.calls[1] IN
  << Returned(s), Clause("labels", LAMBDA z : Len(k.out.val) = N(k.a.X) /\ \A j \in 1..N(k.a.X) : LET want == ConvOf(s.ty, At(k.a.X, j - 1)) IN AllFinite(<<want>>) => FAbs(ParseNum(k.out.val[j]) (-) want) \preceq D("0.0501")) >>
BfClauses(s, e) == LET k == s.calls[1] IN
  << Returned(s), Clause("curves", LAMBDA z : CurvesOk(k)), Clause("ticks", LAMBDA z : TicksOk(s, k)), Clause("centre lines", LAMBDA z : LinesAt(s, k)), Clause("untouched", LAMBDA z : k.mut = <<>>) >>
===================================================================================
