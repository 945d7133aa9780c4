----------------------------------- MODULE C03 -----------------------------------
(* Tapers: the windowing function itself, and every extractor's use of it.         *)
EXTENDS Scen
C03Plan == <<"fn">> \o AnyPlan
C03Choice(p, c) == CASE p = "fn" -> FrameFns [] p = "nf" /\ c.win # Tiny -> {1, 2, 3} [] OTHER -> AnyChoice(p, c)
C03Session(c) == LET k == Model(CallOf(c.fn, AnyArgs(c))) IN IF Fragile(k) THEN <<>> ELSE <<[calls |-> <<k>>]>>
C03Clauses(s, e) == AllConform(s, e)

WnPlan == <<"rows", "L", "wt", "seed">>
WnChoice(p, c) == CASE p = "rows" -> {0, 1, 2, 7} [] p = "L" -> {1, 2, 3, 4, 5, 16, 63, 64, 200, 399, 400, 551, 1103, 2400} [] p = "wt" -> WinTypes \cup {"dflt"} [] p = "seed" -> {1, 2, 3}
WnSession(c) == <<[calls |-> <<CallOf("windowing",
     [frames |-> ("$mat" :> [shape |-> IF c.rows = 0 THEN <<c.L>> ELSE <<c.rows, c.L>>, seed |-> Seed0 + c.seed, g |-> IF c.seed = 3 THEN "const" ELSE "noise"]), frame_len |-> c.L]
      @@ Opt(c.wt # "dflt", [win_type |-> c.wt]))>>]>>
WnClauses(s, e) ==
  LET k == s.calls[1]  a == k.a @@ [win_type |-> "hamming"]  t == Taper(a.win_type, a.frame_len) IN
  << Clause("taper", LAMBDA z : k.out.ok /\ CloseE(k.out.val, IF IsNum(At(a.frames, 0)) THEN t (.) a.frames ELSE Map(a.frames, LAMBDA f : t (.) f), D("1e-10"), D("1e-13"))),
     Clause("symmetric", LAMBDA z : CloseE(t, Rev(t), D("1e-9"), D("1e-13")) /\ AllLe(t, D("1.0000001")) /\ AllGe(t, D("-1e-12"))) >>

\* long recordings
LgPlan == LongPlan
LgChoice(p, c) == IF p = "fn" THEN FrameFns ELSE LongChoice(p, c)
LgSession(c) == C03Session(Trim(c))
LgClauses(s, e) == C03Clauses(s, e)
===================================================================================
