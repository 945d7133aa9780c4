----------------------------------- MODULE C11 -----------------------------------
(* Spectrograms.                                                                   *)
EXTENDS Scen
C11Plan == <<"fn">> \o FramePlan \o BankPlan \o PrePlan
C11Choice(p, c) == IF p = "fn" THEN Spectrograms ELSE StdChoice(p, c)
C11Session(c) == LET k == Model(CallOf(c.fn, BArgs(c))) IN IF Fragile(k) THEN <<>> ELSE <<[calls |-> <<k>>]>>
C11Clauses(s, e) == AllConform(s, e)

\* long recordings
LgPlan == LongPlan
LgChoice(p, c) == IF p = "fn" THEN Spectrograms ELSE LongChoice(p, c)
LgSession(c) == C11Session(Trim(c))
LgClauses(s, e) == C11Clauses(s, e)
===================================================================================
