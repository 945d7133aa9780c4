----------------------------------- MODULE C32 -----------------------------------
(* Shapes and element types.                                                       *)
EXTENDS Scen
C32Plan == <<"fn">> \o AnyPlan \o <<"ue", "lift", "norm", "rep">>
Cepstral == BankCeps \cup PlpCeps \cup {"pncc", "lpcc", "cqcc"}
C32Choice(p, c) ==
  CASE p = "fn" -> FrameFns
    [] p = "g" -> {"ints"} [] p = "amp" -> {D("1")}
    [] p = "rep" -> {"float64", "float64b", "int16", "float32"}
    [] p = "nf" /\ c.win = Tiny -> {130, 300}
    [] p = "ue" -> IF c.fn \in BankCeps THEN {"dflt", "on", "off"} ELSE {"dflt"}
    [] OTHER -> AnyChoice(p, c)
C32Session(c) ==
  LET t == IF c.fn \in Cepstral THEN Drop(Trim(c), {"ue"}) ELSE Drop(Trim(c), {"ue", "lift", "norm"})
      a == Opt(c.ue # "dflt", [use_energy |-> c.ue = "on"]) @@ SigWith(SigDesc(c) @@ [as |-> IF c.rep = "float64b" THEN "float64" ELSE c.rep]) @@ Args(t)
  IN IF Fragile(CallOf(c.fn, a)) THEN <<>> ELSE <<[rep |-> c.rep, calls |-> <<CallOf(c.fn, a)>>]>>
Min2(x, y) == IF x < y THEN x ELSE y
RealF(m) == m.dtype \in {"f8", "f4"}
ShapeOk(c) ==
  LET a == Full(c)  m == c.out.meta  rows == FrameCount(N(a.sig), WinLen(a), WinHop(a))  fn == c.fn IN
  CASE fn \in Spectrograms -> Len(m) = 2 /\ m[1].shape = <<rows, a.nfilts>> /\ m[2].shape = <<rows, Bins(a.nfft)>> /\ RealF(m[1]) /\ RealF(m[2])
    [] fn \in BankCeps \cup {"pncc"} -> m.shape = <<rows, Min2(a.num_ceps, a.nfilts)>> /\ RealF(m)
    [] fn \in PlpCeps \cup {"lpcc"} -> m.shape = <<rows, a.order>> /\ RealF(m)
    [] fn = "lpc" -> Len(m) = 2 /\ m[1].shape = <<rows, a.order>> /\ m[2].shape = <<rows, 1>> /\ RealF(m[1]) /\ RealF(m[2])
    [] fn = "cqt_spectrogram" -> m.shape = <<N(CqtFreqs(CqtParams(a))), rows>>
    [] fn = "cqcc" -> m.shape = <<Trunc(F(rows) (.) F(a.resampling_ratio)), Min2(a.num_ceps, N(CqtFreqs(CqtParams(a))))>> /\ RealF(m)
C32Clauses(s, e) == << Returned(s), Clause("shape:" \o s.calls[1].fn, LAMBDA z : ShapeOk(s.calls[1])) >>

BkPlan == <<"fn", "nfilts", "nfft", "fs", "band", "ap", "scale">>
BkChoice(p, c) == CASE p = "fn" -> BankCtors [] p = "nfilts" -> {0, 1, 2, 7, 24, 64, 128} [] p = "nfft" -> {0, 2, 3, 16, 255, 256, 513, 4096} [] OTHER -> StdChoice(p, c)
BkSession(c) == LET a == [fs |-> c.fs] @@ Int0("nfilts", c.nfilts) @@ Int0("nfft", c.nfft) @@ BandArgs(c) @@ ApArg(c) @@ Opt(c.scale # "dflt", [scale |-> c.scale]) IN
  IF c.fn = "bark_filter_banks" /\ Fragile(CallOf(c.fn, a)) THEN <<>> ELSE <<[calls |-> <<CallOf(c.fn, a)>>]>>
BkClauses(s, e) == LET c == s.calls[1]  a == Full(c)  m == c.out.meta IN
  << Returned(s), Clause("shape:" \o c.fn, LAMBDA z : Len(m) = 2 /\ m[1].shape = <<a.nfilts, Bins(a.nfft)>> /\ Shape(c.out.val[2]) = <<a.nfilts>> /\ RealF(m[1])) >>

\* long recordings
LgPlan == LongPlan \o <<"ue", "lift", "norm", "rep">>
LgChoice(p, c) == IF p \in {"nf", "nfft", "nfilts", "order", "wd", "fs", "wk", "win", "oct", "bins", "f0", "thr", "nceps", "ratio", "band"} THEN LongChoice(p, c) ELSE C32Choice(p, c)
LgSession(c) == C32Session(Trim(c))
LgClauses(s, e) == C32Clauses(s, e)
===================================================================================
