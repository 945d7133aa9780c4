----------------------------------- MODULE C19 -----------------------------------
(* Linear prediction.                                                              *)
EXTENDS Scen
C19Plan == <<"fn">> \o FramePlan \o <<"order">> \o PrePlan
\* orders around the length of a short frame, too
Around(c) == LET L == FrameLen(c.win[1], F(c.fs)) IN IF L <= 110 /\ c.g \in {"noise", "noise2", "ints"} THEN {k \in {L - 5, L - 1, L, L + 1, L + 6, (2 * L) \div 3} : k >= 1} ELSE {}
C19Choice(p, c) == CASE p = "fn" -> {"lpc"} [] p = "order" -> Around(c) \cup AnyChoice(p, c) [] OTHER -> AnyChoice(p, c)
C19Session(c) == <<[calls |-> <<Model(CallOf(c.fn, AnyArgs(c)))>>]>>
C19Clauses(s, e) == AllConform(s, e)

\* long recordings
LgPlan == LongPlan
LgChoice(p, c) == IF p = "fn" THEN {"lpc"} ELSE LongChoice(p, c)
LgSession(c) == C19Session(Trim(c))
LgClauses(s, e) == C19Clauses(s, e)
===================================================================================
