----------------------------------- MODULE C23 -----------------------------------
(* The constant-Q spectrogram.                                                     *)
EXTENDS Scen
C23Plan == <<"fn">> \o FramePlan \o CqtPlan \o <<"band">> \o PrePlan
C23Choice(p, c) == IF p = "fn" THEN {"cqt_spectrogram"} ELSE AnyChoice(p, c)
C23Session(c) == LET k == Model(CallOf(c.fn, Args(c))) IN IF Fragile(k) THEN <<>> ELSE <<[calls |-> <<k>>]>>
C23Clauses(s, e) == AllConform(s, e)

\* long recordings
LgPlan == LongPlan
LgChoice(p, c) == IF p = "fn" THEN {"cqt_spectrogram"} ELSE LongChoice(p, c)
LgSession(c) == C23Session(Trim(c))
LgClauses(s, e) == C23Clauses(s, e)
\* the transform on its own; an optional helper.  Its documented and its declared defaults for bins, threshold and f0
\* differ, so these are always given.
CqHelper == "compute_constant_qtransform"
CqPlan == <<"seed", "cqf", "len", "cqfs", "cqnfft", "oct", "bins", "thr", "f0", "q", "band", "wt", "as", "mul">>
CqChoice(p, c) ==
  CASE p = "cqf" -> {1, 2, 3, 7} [] p = "len" -> {1, 50, 200, 256, 400, 700, Rnd(c, 80, 2, 600)} [] p = "wt" -> WinTypes \cup {"default"}
    [] p = "oct" -> {0, 1, 2, 3, 4, 8} [] p = "bins" -> {1, 3, 6, 12, 24} [] p = "thr" -> {"0", "0.0001", "0.005", "0.0054", "0.03", "0.2"} [] p = "f0" -> {"120", "28", "97.3", "200", "441"}
    [] p = "band" -> {"full", "low", "high", "mid", "none"} [] p = "as" -> {"plain", "fortran", "view", "readonly"} [] p = "mul" -> {"1", "1000", "0.00001"}
    [] OTHER -> StdChoice(p, c)
CqA(c) ==
  [frames |-> ("$mat" :> ([g |-> "noise", shape |-> <<c.cqf, c.len>>, seed |-> Seed0 + c.seed, mul |-> D(c.mul)] @@ Opt(c.as # "plain", [as |-> c.as]))), fs |-> c.cqfs,
   number_of_bins_per_octave |-> c.bins, spectral_threshold |-> D(c.thr), f0 |-> D(c.f0)]
  @@ Int0("nfft", CqFit(c.cqnfft, c.cqfs, c.oct, c.bins, c.f0, c.q, c.seed)) @@ Int0("number_of_octaves", c.oct) @@ Dec("q_rate", c.q) @@ Opt(c.wt # "default", [win_type |-> c.wt])
  @@ (CASE c.band = "low" -> [low_freq |-> D("211.7")] [] c.band = "high" -> [high_freq |-> F(c.cqfs) (.) D("0.2137")] [] c.band = "mid" -> [low_freq |-> D("150.1"), high_freq |-> F(c.cqfs) (.) D("0.3137")]
        [] c.band = "none" -> [high_freq |-> ("$none" :> 1)] [] OTHER -> <<>>)
CqDefaults == [low_freq |-> 0, nfft |-> 512, number_of_octaves |-> 7, q_rate |-> 1, win_type |-> "hamming"]
CqParams(a0) == LET a == GivenArgs(a0) @@ CqDefaults IN CqtParams([window |-> [win_type |-> a.win_type]] @@ a)
CqSession(c) == LET a == CqA(c)  p == CqParams(Drop(a, {"frames"})) IN
  IF CqtFragile(p) \/ CqtAllBlind(p, c.len) \/ N(CqtFreqs(p)) = 0 THEN <<>> ELSE <<[calls |-> <<CallOf(CqHelper, a)>>]>>
CqClauses(s, e) == LET k == s.calls[1] IN
  <<Clause("the transform alone", LAMBDA z : LET x == CqtOf(k.a.frames, CqParams(k.a)) IN k.out.ok /\ Shape(k.out.val.re) = Shape(x[1]) /\ CqtOk(k.out.val, [x |-> x, fr |-> k.a.frames]))>>
===================================================================================
