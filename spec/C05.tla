----------------------------------- MODULE C05 -----------------------------------
EXTENDS Banks
C05Plan == BkPlan
C05Choice(p, c) == IF p = "fn" THEN {"mel_filter_banks", "linear_filter_banks"} ELSE BkChoice(p, c)
C05Session(c) == BkSession(c)
C05Clauses(s, e) == BkClauses(s, e)
===================================================================================
