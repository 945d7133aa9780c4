----------------------------------- MODULE C15 -----------------------------------
(* Liftering: the weights, and that every extractor applies exactly them.          *)
EXTENDS Scen
CepFns == BankCeps \cup PlpCeps \cup {"pncc", "lpcc", "cqcc"}
\* the function itself, exhaustively over the lifter range
C15Plan == <<"lift", "r", "k", "g", "lo">>
C15Choice(p, c) == CASE p = "lift" -> {99} \cup (-24..24) \cup {30, 100, -40, -100}
                     [] p = "k" -> IF c.r = 5000 THEN (IF c.lift % 8 = 3 THEN {5} ELSE {}) ELSE {1, 2, 5, 13, 26, 40, 100} [] p = "r" -> {1, 6, 5000} [] p = "g" -> {"noise", "ints"} [] p = "lo" -> {"c", "fortran", "intarr"}
C15Session(c) == IF (c.lo = "intarr") # (c.g = "ints") THEN <<>> ELSE
  <<[calls |-> <<CallOf("lifter_ceps", [ceps |-> ("$mat" :> [g |-> c.g, shape |-> <<c.r, c.k>>, seed |-> Seed0 + c.k + 7 * c.lift + 1000, as |-> c.lo]) ] @@ Opt(c.lift # 99, [lift |-> c.lift]))>>]>>
C15Clauses(s, e) == LET k == s.calls[1]  a == k.a @@ [lift |-> 3] IN
  <<Clause("lifter_ceps", LAMBDA z : k.out.ok /\ Shape(k.out.val) = Shape(a.ceps) /\ CloseE(k.out.val, Lifter(a.ceps, a.lift), D("1e-9"), D("1e-12") (.) MaxAbs(Lifter(a.ceps, a.lift))))>>

\* through the extractors
LfPlan == <<"fn">> \o AnyPlan \o <<"ue", "lift", "norm">>
LfChoice(p, c) == CASE p = "fn" -> CepFns
                    [] p = "ue" -> IF c.fn \in BankCeps THEN {"dflt", "on", "off"} ELSE {"dflt"}
                    [] p = "nf" /\ c.win = Tiny -> {130}
                    [] OTHER -> AnyChoice(p, c)
UseEnergy(c) == Opt(c.ue = "on", [use_energy |-> TRUE]) @@ Opt(c.ue = "off", [use_energy |-> FALSE])
LfSession(c) ==
  LET b == UseEnergy(c) @@ BArgs(Drop(Trim(c), {"lift", "norm", "ue"}))
      l == BArgs(Drop(Trim(c), {"norm", "ue"}))  n == BArgs(Drop(Trim(c), {"ue"}))
  IN IF Fragile(CallOf(c.fn, b)) THEN <<>>
     ELSE <<[calls |-> <<CallOf(c.fn, b), CallOf(c.fn, UseEnergy(c) @@ l), CallOf(c.fn, UseEnergy(c) @@ n)>>]>>
LfClauses(s, e) ==
  LET fn == s.calls[1].fn  a == Full(s.calls[3])  w == Lifter(Val(s, 1), a.lifter) IN
  << Clause("liftered:" \o fn, LAMBDA z : SameAs(fn, Val(s, 2), w)),
     Clause("then normalised:" \o fn, LAMBDA z : IF Has(a, "normalize") THEN NormalisedOk(Val(s, 3), w, a.normalize) ELSE SameAs(fn, Val(s, 3), w)),
     Returned(s) >>

\* long recordings
LgPlan == LongPlan \o <<"ue", "lift", "norm">>
LgChoice(p, c) == IF p \in {"nf", "nfft", "nfilts", "order", "wd", "fs", "wk", "win", "oct", "bins", "f0", "thr", "nceps", "ratio", "band"} THEN LongChoice(p, c) ELSE LfChoice(p, c)
LgSession(c) == LfSession(Trim(c))
LgClauses(s, e) == LfClauses(s, e)
===================================================================================
