----------------------------------- MODULE C06 -----------------------------------
EXTENDS Banks
C06Plan == BkPlan
C06Choice(p, c) == IF p = "fn" THEN {"inverse_mel_filter_banks"} ELSE BkChoice(p, c)
C06Session(c) == BkSession(c)
C06Clauses(s, e) == BkClauses(s, e)
\* directly against the mel bank of the same parameters, where the mirror maps bins onto bins
MirPlan == <<"nfilts", "nfft", "fs", "ap", "edge">>
MirChoice(p, c) == CASE p = "nfilts" -> {1, 2, 5, 13, 24, 40} [] p = "nfft" -> {64, 256, 512, 1024} [] p = "fs" -> FsSet [] p = "ap" -> MelApproaches
                     [] p = "edge" -> {0, 1, 3, 7}
MirSession(c) ==
  LET w == F(c.fs) (/) F(c.nfft)
      a == [nfilts |-> c.nfilts, nfft |-> c.nfft, fs |-> c.fs, conversion_approach |-> c.ap]
           @@ Opt(c.edge > 0, [low_freq |-> F(c.edge) (.) w, high_freq |-> (F(c.fs) (/) F(2)) (-) (F(c.edge) (.) w)])
  IN <<[calls |-> <<CallOf("inverse_mel_filter_banks", a), CallOf("mel_filter_banks", a)>>]>>
MirClauses(s, e) == <<Returned(s), Clause("mirror", LAMBDA z : CloseE(Val(s, 1)[1], Map(Val(s, 2)[1], Rev), D("1e-7"), D("1e-9")))>>
===================================================================================
