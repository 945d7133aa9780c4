----------------------------------- MODULE C12 -----------------------------------
(* Log-cepstra: the whole route of MFCC, IMFCC, LFCC, NGCC and BFCC.               *)
EXTENDS Scen
C12Plan == <<"fn">> \o FramePlan \o BankPlan \o CepPlan \o PrePlan
C12Choice(p, c) == IF p = "fn" THEN LogCeps ELSE StdChoice(p, c)
C12Session(c) == LET k == Model(CallOf(c.fn, BArgs(c))) IN IF Fragile(k) THEN <<>> ELSE <<[calls |-> <<k>>]>>
C12Clauses(s, e) == AllConform(s, e)

\* long recordings
LgPlan == LongPlan
LgChoice(p, c) == IF p = "fn" THEN LogCeps ELSE LongChoice(p, c)
LgSession(c) == C12Session(Trim(c))
LgClauses(s, e) == C12Clauses(s, e)
===================================================================================
