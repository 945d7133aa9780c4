----------------------------------- MODULE C16 -----------------------------------
(* Cepstral normalisation.                                                         *)
EXTENDS Scen
C16Plan == <<"ty", "r", "k", "g", "off", "mul", "lo", "seed">>
C16Choice(p, c) == CASE p = "ty" -> NormTypes \cup {"dflt"} [] p = "r" -> {1, 2, 3, 40, 5000} [] p = "k" -> IF c.r = 5000 THEN {3} ELSE IF c.r = 1 THEN {2, 13} ELSE {1, 2, 13, 26}
                     [] p = "g" -> IF c.r = 5000 THEN {"noise"} ELSE {"noise", "pos", "power"} [] p = "off" -> {"0", "100", "-7.5"} [] p = "mul" -> {"1", "1e-9", "1e6"}
                     [] p = "lo" -> IF c.mul = "1e6" /\ c.g = "power" THEN {"c", "intarr"} ELSE {"c", "fortran", "view"} [] p = "seed" -> 1..2
C16Session(c) ==
  <<[calls |-> <<CallOf("normalize_ceps", [x |-> ("$mat" :> [g |-> c.g, shape |-> <<c.r, c.k>>, seed |-> Seed0 + c.seed, add |-> D(c.off) (.) D(c.mul), mul |-> D(c.mul), as |-> c.lo])] @@ Opt(c.ty # "dflt", [normalization_type |-> c.ty]))>>]>>
C16Clauses(s, e) == LET k == s.calls[1]  a == k.a @@ [normalization_type |-> "mvn"] IN
  <<Clause("normalize_ceps", LAMBDA z : k.out.ok /\ Shape(k.out.val) = Shape(a.x) /\ NormalisedOk(k.out.val, a.x, a.normalization_type))>>

NmPlan == <<"fn">> \o AnyPlan \o <<"ue", "lift", "norm">>
NmFns == BankCeps \cup PlpCeps \cup {"pncc", "lpcc", "cqcc"}
NmChoice(p, c) == CASE p = "fn" -> NmFns
                    [] p = "ue" -> IF c.fn \in BankCeps THEN {"dflt", "on", "off"} ELSE {"dflt"}
                    [] p = "nf" -> IF c.win = Tiny THEN {130} ELSE {1, 2, 3, 5, 9}
                    [] p = "lift" -> {99, 98, 0, 2, -22}
                    [] p = "norm" -> NormTypes
                    [] OTHER -> AnyChoice(p, c)
Ue(c) == Opt(c.ue = "on", [use_energy |-> TRUE]) @@ Opt(c.ue = "off", [use_energy |-> FALSE])
NmSession(c) ==
  LET n == Ue(c) @@ BArgs(Drop(Trim(c), {"ue"})) IN
  IF Fragile(CallOf(c.fn, n)) THEN <<>>
  ELSE <<[calls |-> <<CallOf(c.fn, Drop(n, {"normalize"})), CallOf(c.fn, [normalize |-> ("$none" :> 1)] @@ n), CallOf(c.fn, n)>>]>>
NmClauses(s, e) ==
  LET fn == s.calls[1].fn IN
  << Clause("normalised:" \o fn, LAMBDA z : NormalisedOk(Val(s, 3), Val(s, 1), s.calls[3].a.normalize)),
     Clause("none:" \o fn, LAMBDA z : SameVal(Val(s, 1), Val(s, 2), D("1e-12"))), Returned(s) >>

\* long recordings
LgPlan == LongPlan \o <<"ue", "lift", "norm">>
LgChoice(p, c) == IF p \in {"nf", "nfft", "nfilts", "order", "wd", "fs", "wk", "win", "oct", "bins", "f0", "thr", "nceps", "ratio", "band"} THEN LongChoice(p, c) ELSE NmChoice(p, c)
LgSession(c) == NmSession(Trim(c))
LgClauses(s, e) == NmClauses(s, e)
===================================================================================
