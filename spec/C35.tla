----------------------------------- MODULE C35 -----------------------------------
(* Gain laws.                                                                      *)
EXTENDS Scen
GainFns == (FrameFns \ ({"bfcc", "pncc", "lpcc", "cqcc"} \cup PlpCeps))
C35Plan == <<"fn">> \o AnyPlan \o <<"gain">>
C35Choice(p, c) ==
  CASE p = "fn" -> GainFns
    [] p = "g" -> {"noise", "ints", "bursts"} [] p = "amp" -> {D("1"), D("1e-3"), D("1e-8"), D("20000")}
    [] p = "nf" /\ c.win = Tiny -> {130}
    [] p = "dct" /\ c.fn \in LogCeps -> {0, 2}
    [] p = "win" -> {w \in AnyChoice(p, c) : FrameLen(w[1], F(c.fs)) > 3}         \* no taper that is zero everywhere
    [] p = "gain" -> {"2", "0.5", "0.001", "1000", "3.7", "0.03125", "1e-6", "1e5"}
    [] OTHER -> AnyChoice(p, c)
C35Session(c) ==
  LET a == Args(Trim(c)) IN
  IF Fragile(CallOf(c.fn, a)) \/ (c.fn \in (BankCeps \cup Spectrograms) /\ EmptyRow(CallOf(c.fn, a))) THEN <<>>
  ELSE <<[gain |-> D(c.gain), calls |-> <<CallOf(c.fn, a), CallOf(c.fn, SigWith(SigDesc(c) @@ [ops |-> <<<<"gain", D(c.gain)>>>>]) @@ a)>>]>>
Near8(u, v) == CloseC(u, v, D("1e-8"), D("1e-11"))
LawOk(fn, a, k, u, v) ==
  CASE fn \in Spectrograms -> Near8(v[1], (k (.) k) (.) u[1]) /\ Near8(v[2], k (.) u[2])
    [] fn \in LogCeps -> LET sh == F(2) (.) Ln(k) (.) Sqrt(F(a.nfilts)) IN
         CloseE(v, Map(u, LAMBDA r : Cat(<<At(r, 0) (+) sh>>, Cut(r, 1, N(r) - 1))), D("1e-8"), D("1e-8") (.) FMax(F(1), MaxAbs(u)))
    [] fn = "gfcc" -> Near8(v, FPow(k, F(2) (/) F(3)) (.) u)
    [] fn = "msrcc" -> CloseA(v, FPow(k, F(2) (.) F(a.gamma)) (.) u, D("1e-8"))
    [] fn = "psrcc" -> CloseA(v, u, D("1e-7"))
    [] fn = "lpc" -> CloseC(v[1], u[1], D("1e-6"), D("1e-9")) /\ CloseE(v[2], (k (.) k) (.) u[2], D("1e-6"), D("1e-9") (.) MaxAbs((k (.) k) (.) u[2]))
    [] fn = "cqt_spectrogram" -> CloseA(v.re, k (.) u.re, D("1e-9")) /\ CloseA(v.im, k (.) u.im, D("1e-9"))
C35Clauses(s, e) == LET fn == s.calls[1].fn IN
  << Clause("gain law:" \o fn, LAMBDA z : LawOk(fn, Full(s.calls[1]), s.gain, Val(s, 1), Val(s, 2))), Returned(s) >>

GtPlan == <<"fn", "fs", "g", "f", "seed", "bf", "win", "nf", "rem", "gain">>
GtChoice(p, c) == CASE p = "fn" -> {"get_dominant_frequencies", "compute_yin"} [] p = "fs" -> {8000, 16000, 44100} [] p = "g" -> {"noise", "toned", "bursts"} [] p = "f" -> {"110", "333.3", "700"}
                    [] p = "bf" -> BOOLEAN [] p = "win" -> {<<D("0.03"), D("0.015")>>, <<D("0.05"), D("0.02")>>} [] p = "nf" -> {2, 3, 9} [] p = "gain" -> {"2", "0.5", "0.001", "1000", "3.7", "0.03125", "1e-6", "1e-9", "1e5"} [] OTHER -> StdChoice(p, c)
GtSession(c) == LET d == IF c.g = "toned" THEN [g |-> "toned", f |-> D(c.f), eps |-> D("0.05"), n |-> SigLen(c), seed |-> Seed0 + c.seed, fs |-> c.fs] ELSE SigDesc(c)
                    a == [fs |-> c.fs, win_len |-> c.win[1], win_hop |-> c.win[2]] @@ Opt(c.fn = "get_dominant_frequencies" /\ c.bf, [butter_filter |-> TRUE]) IN
  <<[gain |-> D(c.gain), calls |-> <<CallOf(c.fn, SigWith(d) @@ a), CallOf(c.fn, SigWith(d @@ [ops |-> <<<<"gain", D(c.gain)>>>>]) @@ a)>>]>>
GtClauses(s, e) == LET fn == s.calls[1].fn  v == Val(s, 2)  u == Val(s, 1) IN
  << Clause("gain law:" \o fn, LAMBDA z : IF fn = "compute_yin" THEN CloseA(v[1], u[1], D("1e-9")) /\ CloseE(v[2], u[2], D("1e-6"), D("1e-6")) /\ CloseA(v[4], u[4], D("1e-12")) ELSE CloseA(v, u, D("1e-12"))), Returned(s) >>
===================================================================================
