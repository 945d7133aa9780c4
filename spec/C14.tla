----------------------------------- MODULE C14 -----------------------------------
(* use_energy replaces the first coefficient only.                                 *)
EXTENDS Scen
C14Plan == <<"fn">> \o AnyPlan \o <<"lift", "norm", "how">>
C14Choice(p, c) == CASE p = "fn" -> BankCeps
                     [] p = "nf" /\ c.win = Tiny -> {130}
                     [] p = "how" -> {"plain", "plain2", "post"}
                     [] p = "lift" -> {99, 0, 3, 10, -3, 25} [] OTHER -> AnyChoice(p, c)
C14Session(c) ==
  LET b == BArgs(Drop(Trim(c), IF c.how = "post" THEN {} ELSE {"lift", "norm"})) IN
  IF Fragile(CallOf(c.fn, b)) THEN <<>> ELSE
  <<[how |-> c.how, calls |-> <<CallOf(c.fn, Drop(b, {"normalize", "lifter"})), CallOf(c.fn, [use_energy |-> FALSE] @@ Drop(b, {"normalize", "lifter"})),
       Model(CallOf(c.fn, [use_energy |-> TRUE] @@ b))>>]>>
\* every column but the first
Others(M) == Map(M, LAMBDA r : Cut(r, 1, N(r) - 1))
FrameEnergy(c) == LET a == Full(c)  x == IF a.pre_emph THEN PreEmph(a.sig, F(a.pre_emph_coeff)) ELSE a.sig
                      w == Tapered(Frames(x, WinLen(a), WinHop(a)), a.window.win_type, WinLen(a))
                  IN Map(w, LAMBDA f : Sum(Power(Magnitudes(f, a.nfft), a.nfft)))
C14Clauses(s, e) ==
  LET c == s.calls[3]  fn == c.fn IN
  << Conforms(s, e, 3), Clause("default off", LAMBDA z : SameVal(Val(s, 1), Val(s, 2), D("1e-12"))), Returned(s) >>
  \o (IF s.how = "post" THEN <<>> ELSE
      << Clause("others kept:" \o fn, LAMBDA z : Shape(Val(s, 3)) = Shape(Val(s, 1)) /\ (N(Val(s, 1)[1]) > 1 => SameVal(Others(Val(s, 3)), Others(Val(s, 1)), D("1e-12")))),
         Clause("first:" \o fn, LAMBDA z : CloseE(Col(Val(s, 3), 0), Ln(ZeroToEps(FrameEnergy(c))), D("1e-9"), D("1e-9"))) >>)

\* long recordings
LgPlan == LongPlan \o <<"lift", "norm", "how">>
LgChoice(p, c) == IF p \in {"nf", "nfft", "nfilts", "order", "wd", "fs", "wk", "win", "oct", "bins", "f0", "thr", "nceps", "ratio", "band"} THEN LongChoice(p, c) ELSE C14Choice(p, c)
LgSession(c) == C14Session(Trim(c))
LgClauses(s, e) == C14Clauses(s, e)
===================================================================================
