----------------------------------- MODULE C21 -----------------------------------
(* PLP and RASTA-PLP.                                                              *)
EXTENDS Scen
C21Plan == <<"fn">> \o FramePlan \o BankPlan \o <<"order">> \o PrePlan
C21Choice(p, c) == CASE p = "fn" -> PlpCeps
                     [] p = "nf" -> IF c.win = Tiny THEN {130, 300} ELSE {1, 2, 3, 4, 5, 6, 9, 21}
                     [] OTHER -> AnyChoice(p, c)
C21Session(c) == LET k == Model(CallOf(c.fn, BArgs(c))) IN IF Fragile(k) THEN <<>> ELSE <<[calls |-> <<k>>]>>
C21Clauses(s, e) == AllConform(s, e)

\* long recordings
LgPlan == LongPlan
LgChoice(p, c) == IF p = "fn" THEN PlpCeps ELSE LongChoice(p, c)
LgSession(c) == C21Session(Trim(c))
LgClauses(s, e) == C21Clauses(s, e)
===================================================================================
