----------------------------------- MODULE C31 -----------------------------------
(* Supplied filter banks.                                                          *)
EXTENDS Scen
C31Plan == <<"fn">> \o AnyPlan \o <<"kind", "oband", "oscale", "lift", "norm">>
C31Choice(p, c) ==
  CASE p = "fn" -> BankFns
    [] p = "nf" /\ c.win = Tiny -> {130}
    [] p = "kind" -> {"pos", "sparse", "power", "other", "view", "fortran", "zeros", "bits", "f4", "readonly"} \cup (IF c.fn \in Spectrograms THEN {"noise", "ints"} ELSE {})
    [] p = "oband" -> Bands
    [] p = "oscale" -> Scales
    [] p = "lift" -> {99, 99, 3} [] p = "norm" -> {"none", "none2", "ms"} \cap (NormChoice(c) \cup {"none2"})
    [] OTHER -> AnyChoice(p, c)
BankArgs(c) == Int0("nfilts", c.nfilts) @@ [nfilts |-> EffNfilts(c), fs |-> c.fs] @@ Int0("nfft", c.nfft) @@ BandArgs(c) @@ ApArg(c) @@ Opt(c.scale # "dflt", [scale |-> c.scale])
OtherBank(c) == LET bins == Bins(IF c.nfft = 0 THEN 512 ELSE c.nfft) IN
  IF c.kind = "other"       \* the bank of another family
  THEN ("$bank" :> [fn |-> IF BankOf(c.fn) = "lin" THEN "gammatone_filter_banks" ELSE "linear_filter_banks", a |-> [nfilts |-> EffNfilts(c), fs |-> c.fs] @@ Int0("nfft", c.nfft)])
  ELSE ("$mat" :> [g |-> IF c.kind \in {"view", "fortran", "f4", "readonly"} THEN "pos" ELSE c.kind, shape |-> <<EffNfilts(c), bins>>, seed |-> Seed0 + c.seed, as |-> IF c.kind = "bits" THEN "intarr" ELSE c.kind])
C31Session(c) ==
  LET cep == c.fn \in (BankCeps \cup {"pncc"})
      t == IF cep THEN Trim(c) ELSE Drop(Trim(c), {"lift", "norm"})
      a == Args(t)
      o == [band |-> c.oband, fs |-> c.fs]
  IN IF Fragile(CallOf(c.fn, a)) THEN <<>> ELSE
     <<[calls |-> <<CallOf(c.fn, a), CallOf(c.fn, [fbanks |-> ("$bank" :> [fn |-> CtorOf(BankOf(c.fn)), a |-> BankArgs(c)])] @@ a),
          Model(CallOf(c.fn, [fbanks |-> OtherBank(c)] @@ a)),
          CallOf(c.fn, [fbanks |-> OtherBank(c), scale |-> c.oscale] @@ BandArgs(o) @@ Drop(a, {"low_freq", "high_freq", "conversion_approach", "scale"}))>>]>>
C31Clauses(s, e) == LET fn == s.calls[1].fn IN
  << Clause("own bank supplied:" \o fn, LAMBDA z : SameAs(fn, Val(s, 2), Val(s, 1))),
     Conforms(s, e, 3),
     Clause("other options ignored:" \o fn, LAMBDA z : SameAs(fn, Val(s, 4), Val(s, 3))),
     Clause("bank untouched", LAMBDA z : \A j \in 1..4 : s.calls[j].mut = <<>>), Returned(s) >>
===================================================================================
