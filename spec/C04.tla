----------------------------------- MODULE C04 -----------------------------------
(* Pre-emphasis.                                                                   *)
EXTENDS Scen
C04Plan == <<"fn">> \o AnyPlan
C04Choice(p, c) ==
  CASE p = "fn" -> FrameFns
    [] p = "pe" -> {"dflt", "on", "on2", "on3"}
    [] p = "nf" /\ c.win = Tiny -> {130}
    [] p = "g" -> {"noise", "ints", "bursts"}
    [] OTHER -> AnyChoice(p, c)
C04Session(c) ==
  LET t == Trim(c)
      on == (IF c.pe = "dflt" THEN <<>> ELSE [pre_emph |-> TRUE]) @@ Dec("pre_emph_coeff", c.pc)
      b == Drop(BArgs(t), {"pre_emph", "pre_emph_coeff"})
      coeff == IF c.pc = "dflt" THEN D("0.97") ELSE D(c.pc)
      bp == SigWith(SigDesc(c) @@ [ops |-> <<<<"preemph", coeff>>>>]) @@ b
      off == [pre_emph |-> FALSE]
  IN IF Fragile(CallOf(c.fn, b)) THEN <<>>
     ELSE <<[calls |-> <<CallOf(c.fn, on @@ b), CallOf(c.fn, off @@ bp), CallOf(c.fn, off @@ b), CallOf(c.fn, off @@ Dec("pre_emph_coeff", c.pc) @@ b)>>]>>
C04Clauses(s, e) ==
  LET fn == s.calls[1].fn  a == Full(s.calls[1]) IN
  << Clause("premise", LAMBDA z : CloseA(s.calls[2].a.sig, PreEmph(s.calls[1].a.sig, F(a.pre_emph_coeff)), D("1e-14"))),
     Clause("honoured:" \o fn, LAMBDA z : SameAs(fn, Val(s, 1), IF a.pre_emph THEN Val(s, 2) ELSE Val(s, 3))),
     Clause("off:" \o fn, LAMBDA z : SameAs(fn, Val(s, 4), Val(s, 3))), Returned(s) >>

PrPlan == <<"n", "g", "rep", "pc", "seed">>
PrChoice(p, c) == CASE p = "n" -> {1, 2, 3, 10, 400, 1023, 5000, 70000, 131073, 300000} [] p = "g" -> {"noise", "ints", "dc", "impulse", "fullscale", "silence", "bytes"}
                    [] p = "pc" -> {"dflt", "0.97", "0.5", "0", "-0.3", "1", "0.95", "2", "1.0", "-1"} [] p = "seed" -> 1..300
                    [] p = "rep" -> IF c.g = "bytes" THEN {"uint8", "uint16", "uint32", "int8", "float32", "list", "intlist"} ELSE IF c.g = "ints" THEN {"int16", "int32", "int64", "float32", "list", "intlist"} ELSE {"float64"}
PrSession(c) == <<[calls |-> <<CallOf("pre_emphasis", SigWith([g |-> c.g, n |-> c.n, seed |-> Seed0 + c.seed] @@ Opt(c.g \in {"ints", "bytes"}, [as |-> c.rep])) @@ Dec("pre_emph_coeff", c.pc))>>]>>
PrClauses(s, e) == LET k == s.calls[1]  a == k.a @@ [pre_emph_coeff |-> D("0.97")] IN
  <<Clause("pre_emphasis", LAMBDA z : k.out.ok /\ CloseA(k.out.val, PreEmph(a.sig, F(a.pre_emph_coeff)), D("1e-14")))>>

\* long recordings
LgPlan == LongPlan
LgChoice(p, c) == CASE p = "fn" -> FrameFns [] p = "pe" -> {"dflt", "on"} [] OTHER -> LongChoice(p, c)
LgSession(c) == C04Session(Trim(c))
LgClauses(s, e) == C04Clauses(s, e)
===================================================================================
