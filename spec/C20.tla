----------------------------------- MODULE C20 -----------------------------------
(* The cepstral recursion: the conversion itself and the LPCC extractor.           *)
EXTENDS Scen
C20Plan == <<"fn">> \o FramePlan \o <<"order">> \o PrePlan
C20Choice(p, c) == IF p = "fn" THEN {"lpcc"} ELSE AnyChoice(p, c)
\* once plain, once liftered and normalised
C20Session(c) ==
  LET a == AnyArgs(c)  k == CallOf(c.fn, a)
      post == CallOf(c.fn, [lifter |-> 2 + (c.seed % 3)] @@ Opt(c.nf > 1, [normalize |-> "ms"]) @@ a)
  IN IF Fragile(k) THEN <<>> ELSE <<[calls |-> <<Model(k), post>>]>>
C20Clauses(s, e) ==
  << Conforms(s, e, 1),
     Clause("post", LAMBDA z : LET a == s.calls[2].a  u == Lifter(Val(s, 1), a.lifter) IN
                               IF Has(a, "normalize") THEN NormalisedOk(Val(s, 2), u, a.normalize) ELSE CloseC(Val(s, 2), u, D("1e-6"), D("1e-9"))) >>

CvPlan == <<"p", "n", "e", "g", "seed">>
CvChoice(p, c) == CASE p = "p" -> {1, 2, 3, 5, 8, 13, 21} [] p = "n" -> {1, 2, 3, 4, 7, 13, 14, 20, 33}
                    [] p = "e" -> {D("0"), D("1"), D("2.5"), D("1e-9"), D("1e6")} [] p = "g" -> {"ints", "noise", "pos"} [] p = "seed" -> 1..100
CvSession(c) ==
  LET a == [g |-> c.g, shape |-> <<c.p>>, seed |-> Seed0 + c.seed, mul |-> D("0.2"), first |-> F(1)]
  IN <<[calls |-> <<CallOf("lpc2lpcc", [a |-> ("$mat" :> a), e |-> c.e, nceps |-> c.n])>>]>>
CvClauses(s, e) == <<Clause("lpc2lpcc", LAMBDA z : LET a == s.calls[1].a IN
   Ok(s, 1) /\ CloseE(Val(s, 1), LpCepstrum(a.a, a.e, a.nceps), D("1e-9"), D("1e-11") (.) MaxAbs(LpCepstrum(a.a, a.e, a.nceps))))>>

\* long recordings
LgPlan == LongPlan
LgChoice(p, c) == IF p = "fn" THEN {"lpcc"} ELSE LongChoice(p, c)
LgSession(c) == C20Session(Trim(c))
LgClauses(s, e) == C20Clauses(s, e)
===================================================================================
