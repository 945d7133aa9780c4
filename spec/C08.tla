----------------------------------- MODULE C08 -----------------------------------
EXTENDS Banks
C08Plan == BkPlan
C08Choice(p, c) == IF p = "fn" THEN {"gammatone_filter_banks"} ELSE BkChoice(p, c)
C08Session(c) == BkSession(c)
C08Clauses(s, e) == BkClauses(s, e)
===================================================================================
