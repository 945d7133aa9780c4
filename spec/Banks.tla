---------------------------------- MODULE Banks ----------------------------------
(* Scenarios of the filter-bank constructors.                                      *)
EXTENDS Scen
BkPlan == <<"fn", "seed", "def", "nfilts", "nfft", "fs", "band", "ap", "scale", "gorder">>
BkChoice(p, c) ==
  CASE p = "def" -> {"a", "b", "c", "d", "e", "f", "g", "all"}
    [] p = "nfilts" -> {0, 1, 2, 3, 10, 13, 24, 40, 49, 64, 100, Rnd(c, 1, 4, 60), Rnd(c, 2, 61, 250)}
    [] p = "nfft" -> {0, 16, 33, 64, 255, 256, 400, 512, 1024, 1500, 2048, 4096, 8192, Rnd(c, 3, 16, 300), Rnd(c, 4, 301, 1400), Rnd(c, 5, 1025, 4500)} \cup (IF c.nfilts <= 40 THEN {16384, Rnd(c, 6, 8193, 40000)} ELSE {})
    [] p = "scale" -> {"dflt", "constant"}
    [] p = "gorder" -> IF c.fn = "gammatone_filter_banks" THEN {0, 1, 2, 3, 4, 5} ELSE {0}
    [] p = "band" -> Bands \cup {"tight", "tight2"}
    [] OTHER -> StdChoice(p, c)
BkArgs(c) == IF c.def = "all" THEN <<>> ELSE
  [fs |-> c.fs] @@ Int0("nfilts", c.nfilts) @@ Int0("nfft", c.nfft) @@ BandArgs(c) @@ ApArg(c)
  @@ Opt(c.scale # "dflt", [scale |-> c.scale]) @@ Int0("order", c.gorder)
BkSession(c) == <<[calls |-> <<Model(CallOf(c.fn, BkArgs(c)))>>]>>
BkClauses(s, e) ==
  LET k == s.calls[1]  p == BankParams(Full(k))  v == k.out.val  kd == BankOf(k.fn) IN
  << Conforms(s, e, 1),
     Clause("nonnegative", LAMBDA z : AllGe(v[1], F(0))),
     Clause("shape", LAMBDA z : k.out.meta[1].shape = <<p.nfilts, Bins(p.nfft)>> /\ k.out.meta[2].shape = <<p.nfilts>>),
     Clause("peak", LAMBDA z : \A j \in 1..p.nfilts : IF kd = "gamma" THEN CloseE(MaxOf(v[1][j]), F(1), D("1e-12"), F(0)) ELSE MaxOf(v[1][j]) \preceq D("1.000000001")),
     Clause("order", LAMBDA z : \A j \in 0..(p.nfilts - 2) :
                       IF kd = "imel" THEN At(v[2], j + 1) \prec At(v[2], j) ELSE At(v[2], j) \prec At(v[2], j + 1)) >>
===================================================================================
