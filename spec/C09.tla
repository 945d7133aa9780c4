----------------------------------- MODULE C09 -----------------------------------
(* The scale option.                                                               *)
EXTENDS Banks
C09Plan == BkPlan
C09Choice(p, c) == CASE p = "fn" -> BankCtors [] p = "def" -> {"a"} [] p = "scale" -> {"dflt"} [] p = "nfft" -> {0, 64, 255, 512, 1024} [] OTHER -> BkChoice(p, c)
C09Session(c) == LET a == BkArgs(c) IN
  <<[calls |-> <<CallOf(c.fn, a), CallOf(c.fn, a @@ [scale |-> "constant"]), CallOf(c.fn, a @@ [scale |-> "ascendant"]), CallOf(c.fn, a @@ [scale |-> "descendant"])>>]>>
C09Clauses(s, e) ==
  LET fn == s.calls[1].fn  kd == BankOf(fn)
      same(j) == CloseE(Val(s, j)[2], Val(s, 1)[2], D("1e-12"), F(0))
      ramp(j, sc) == CloseE(Val(s, j)[1], ScaleRows(Val(s, 1)[1], RowRamp(kd, sc, N(Val(s, 1)[1]))), D("1e-11"), F(0))
  IN << Returned(s), Clause("constant:" \o fn, LAMBDA z : CloseE(Val(s, 2)[1], Val(s, 1)[1], D("1e-12"), F(0)) /\ same(2)),
        Clause("ascendant:" \o fn, LAMBDA z : ramp(3, "ascendant") /\ same(3)),
        Clause("descendant:" \o fn, LAMBDA z : ramp(4, "descendant") /\ same(4)) >>

\* extractors: the option equals the scaled bank supplied explicitly
BankArgs(c) == [nfilts |-> EffNfilts(c)] @@ [x \in (DOMAIN Args(c)) \cap {"nfft", "fs", "low_freq", "high_freq", "scale", "conversion_approach"} |-> Args(c)[x]]
FwPlan == <<"fn">> \o AnyPlan
FwChoice(p, c) == CASE p = "fn" -> BankFns [] p = "scale" -> Scales [] p = "nf" /\ c.win # Tiny -> {1, 2, 5} [] p = "nf" -> {130} [] OTHER -> AnyChoice(p, c)
FwSession(c) ==
  LET t == Trim(c)  a == Args(t)  k == CallOf(c.fn, a) IN
  <<[calls |-> <<k, CallOf(c.fn, [fbanks |-> ("$bank" :> [fn |-> CtorOf(BankOf(c.fn)), a |-> BankArgs(t)])] @@ a)>>]>>
FwClauses(s, e) == <<Returned(s), Clause("forwarded:" \o s.calls[1].fn, LAMBDA z : SameAs(s.calls[1].fn, Val(s, 1), Val(s, 2)))>>
===================================================================================
