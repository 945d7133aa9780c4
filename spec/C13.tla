----------------------------------- MODULE C13 -----------------------------------
(* Root-cepstra: GFCC, MSRCC and PSRCC.                                            *)
EXTENDS Scen
C13Plan == <<"fn">> \o FramePlan \o BankPlan \o CepPlan \o PrePlan \o <<"gamma">>
C13Choice(p, c) == IF p = "fn" THEN RootCeps ELSE AnyChoice(p, c)
C13Session(c) == LET k == Model(CallOf(c.fn, AnyArgs(c))) IN IF Fragile(k) THEN <<>> ELSE <<[calls |-> <<k>>]>>
C13Clauses(s, e) == AllConform(s, e)

\* long recordings
LgPlan == LongPlan
LgChoice(p, c) == IF p = "fn" THEN RootCeps ELSE LongChoice(p, c)
LgSession(c) == C13Session(Trim(c))
LgClauses(s, e) == C13Clauses(s, e)
===================================================================================
