----------------------------------- MODULE C25 -----------------------------------
(* YIN.                                                                            *)
EXTENDS Scen
C25Plan == <<"fs", "wd", "win", "band", "thr", "nf", "rem", "g", "f", "amp", "seed">>
C25Choice(p, c) ==
  CASE p = "fs" -> {8000, 11025, 16000, 22050, 44100}
    [] p = "win" -> IF c.wd = "yes" THEN {<<D("0.03"), D("0.015")>>} ELSE {<<D("0.03"), D("0.01")>>, <<D("0.04"), D("0.04")>>, <<D("0.025"), D("0.0107")>>, <<D("0.0217"), D("0.03")>>}
    [] p = "band" -> {"dflt", "dflt2", "voice", "high", "frac", "wide", "above", "top"}
    [] p = "thr" -> {"dflt", "0.1", "0.3", "0.05", "0.7", "1.5", "0"}
    [] p = "nf" -> {0, 1, 2, 3, 8}
    [] p = "g" -> {"tone", "toned", "twotone", "noise", "square", "gaps", "bursts", "silence", "impulse", "ints", "dcnoise"}
    [] p = "f" -> {"55", "110.7", "220", "441.3", "997", "1900"}
    [] OTHER -> StdChoice(p, c)
C25Sig(c) ==
  LET n == IF SigLen(c) < 2 THEN 2 ELSE SigLen(c) + 1  base == [n |-> n, seed |-> Seed0 + c.seed, fs |-> c.fs, amp |-> c.amp] IN
  CASE c.g = "tone" -> [g |-> "tone", f |-> D(c.f)] @@ base
    [] c.g = "toned" -> [g |-> "toned", f |-> D(c.f), eps |-> D("0.1")] @@ base
    [] c.g = "twotone" -> [g |-> "twotone", f |-> D(c.f), f2 |-> F(2) (.) D(c.f), a2 |-> D("0.8")] @@ base
    [] c.g = "square" -> [g |-> "square", per |-> 10 + (c.seed % 90)] @@ base
    [] c.g = "impulse" -> [g |-> "impulse", at |-> (c.seed * 7) % n] @@ base
    [] c.g = "dcnoise" -> [g |-> "toned", f |-> D("0.5"), eps |-> D("0.2")] @@ base
    [] c.g = "silence" -> [g |-> "silence"] @@ base
    [] OTHER -> [n |-> n] @@ SigDesc(c)
C25Band(c) == CASE c.band \in {"dflt", "dflt2"} -> <<>> [] c.band = "voice" -> [low_freq |-> 60, high_freq |-> 400] [] c.band = "high" -> [low_freq |-> 200, high_freq |-> 2500]
                [] c.band = "frac" -> [low_freq |-> D("87.3"), high_freq |-> D("1234.5")] [] c.band = "wide" -> [low_freq |-> D("48.5"), high_freq |-> F(c.fs) (/) F(2)]
                [] c.band = "above" -> [low_freq |-> 70, high_freq |-> D("0.7") (.) F(c.fs)] [] c.band = "top" -> [low_freq |-> 90, high_freq |-> c.fs]
YinArgs(a) == a @@ [win_len |-> D("0.03"), win_hop |-> D("0.015"), low_freq |-> 50, high_freq |-> 3000, harmonic_threshold |-> D("0.1")]
C25Session(c) ==
  LET a == SigWith(C25Sig(c)) @@ [fs |-> c.fs] @@ Opt(c.wd # "yes", [win_len |-> c.win[1], win_hop |-> c.win[2]]) @@ C25Band(c) @@ Dec("harmonic_threshold", c.thr)
      full == YinArgs(a)
  IN IF FrameLen(F(full.win_len), F(c.fs)) < Trunc(F(c.fs) (/) F(full.low_freq)) THEN <<>>     \* the longest lag must fit the window
     ELSE <<[calls |-> <<CallOf("compute_yin", a)>>]>>
Eps == D("1e-6")
WindowOk(x, fs, lo, hi, thr, pitch, rate, amin) ==
  LET E == Dot(x, x)  df == Difference(x, hi)  cm == Cmnd(df) IN
  IF FEq(E, F(0)) THEN FEq(pitch, F(0)) /\ FEq(rate, F(1)) /\ FEq(amin, F(0))        \* silence: no pitch, no periodicity
  ELSE IF hi < 2 \/ At(df, 1) \prec (D("1e-7") (.) E) THEN TRUE                        \* a constant: 0/0 up to rounding
  ELSE
  /\ \E t \in Admissible(cm, lo, hi, thr, Eps) :
       IF t = 0 THEN FEq(pitch, F(0)) /\ FAbs(rate (-) MinOf(cm)) \preceq Eps
       ELSE CloseE(pitch, F(fs) (/) F(t), D("1e-9"), F(0)) /\ FAbs(rate (-) At(cm, t)) \preceq Eps
  /\ \E t \in 0..(hi - 1) : At(cm, t) \preceq (MinOf(cm) (+) Eps)
       /\ IF t > lo THEN CloseE(amin, F(fs) (/) F(t), D("1e-9"), F(0)) ELSE FEq(amin, F(0))
YinOk(k) ==
  LET a == YinArgs(k.a)  L == FrameLen(F(a.win_len), F(a.fs))  S == FrameLen(F(a.win_hop), F(a.fs))
      cnt == IF N(a.sig) <= L THEN 0 ELSE ((N(a.sig) - L - 1) \div S) + 1
      lo == Trunc(F(a.fs) (/) F(a.high_freq))  hi == Trunc(F(a.fs) (/) F(a.low_freq))
      v == k.out.val
  IN /\ k.out.ok /\ Len(v) = 4 /\ \A j \in 1..4 : Shape(v[j]) = <<cnt>>
     /\ cnt > 0 => CloseE(v[4], Tab(cnt, LAMBDA m : F(m * S) (/) F(a.fs)), D("1e-12"), D("1e-15"))
     /\ \A m \in 0..(cnt - 1) : WindowOk(Cut(a.sig, m * S, L), a.fs, lo, hi, F(a.harmonic_threshold), At(v[1], m), At(v[2], m), At(v[3], m))
C25Clauses(s, e) == <<Clause("compute_yin", LAMBDA z : YinOk(s.calls[1]))>>

\* the lag search alone, exhaustively over short difference functions
GpPlan == <<"n", "lo", "hi", "thr", "v1", "v2", "v3", "v4", "v5">>
GpVals == {"0", "0.05", "0.1", "0.2"}
GpChoice(p, c) == CASE p = "n" -> {5} [] p = "lo" -> {0, 1, 2} [] p = "hi" -> {3, 5} [] p = "thr" -> {"dflt", "0.15"} [] OTHER -> GpVals
GpSession(c) == LET v == <<c.v1, c.v2, c.v3, c.v4, c.v5>> IN
  <<[calls |-> <<CallOf("get_pitch", [cmdf |-> ("$mat" :> [g |-> "vals", shape |-> <<5>>, v |-> [n \in 1..5 |-> D(v[n])]]), tau_min |-> c.lo, tau_max |-> c.hi]
                     @@ Dec("harmonic_threshold", c.thr))>>]>>
GpClauses(s, e) == LET k == s.calls[1]  a == k.a @@ [harmonic_threshold |-> D("0.1")] IN
  <<Clause("get_pitch", LAMBDA z : k.out.ok /\ FEq(k.out.val, F(Search(a.cmdf, a.tau_min, a.tau_max, F(a.harmonic_threshold)))))>>
===================================================================================
