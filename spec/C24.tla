----------------------------------- MODULE C24 -----------------------------------
(* CQCC.                                                                           *)
EXTENDS Scen
C24Plan == <<"fn">> \o FramePlan \o CqtPlan \o <<"band", "nceps", "dct", "ratio">> \o PrePlan
C24Choice(p, c) == IF p = "fn" THEN {"cqcc"} ELSE AnyChoice(p, c)
C24Session(c) == LET k == Model(CallOf(c.fn, Args(c))) IN IF Fragile(k) THEN <<>> ELSE <<[calls |-> <<k>>]>>
C24Clauses(s, e) == AllConform(s, e)

\* long recordings
LgPlan == LongPlan
LgChoice(p, c) == IF p = "fn" THEN {"cqcc"} ELSE LongChoice(p, c)
LgSession(c) == C24Session(Trim(c))
LgClauses(s, e) == C24Clauses(s, e)
===================================================================================
