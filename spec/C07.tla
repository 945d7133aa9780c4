----------------------------------- MODULE C07 -----------------------------------
EXTENDS Banks
C07Plan == BkPlan
C07Choice(p, c) == IF p = "fn" THEN {"bark_filter_banks"} ELSE BkChoice(p, c)
C07Session(c) == BkSession(c)
C07Clauses(s, e) == BkClauses(s, e)
\* the curve itself
FmPlan == <<"b", "d">>
FmChoice(p, c) == CASE p = "b" -> {"0", "3.7", "11", "20.25"} [] p = "d" -> {"-5", "-1.31", "-1.29", "-0.9", "-0.51", "-0.49", "0", "0.49", "0.51", "1", "2.49", "2.51", "4"}
FmSession(c) == <<[calls |-> <<CallOf("Fm", [fb |-> D(c.b) (+) D(c.d), fc |-> D(c.b)])>>]>>
FmClauses(s, e) == LET k == s.calls[1] IN <<Clause("Fm", LAMBDA z : k.out.ok /\ CloseE(k.out.val, CriticalBand(k.a.fb (-) k.a.fc), D("1e-9"), D("1e-12")))>>
===================================================================================
