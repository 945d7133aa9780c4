----------------------------------- MODULE C26 -----------------------------------
(* Dominant frequencies.                                                           *)
EXTENDS Scen, Butter
C26Plan == <<"wd", "fs", "win", "wt", "nf", "rem", "g", "f", "amp", "seed", "nfft", "bf", "cut", "pos">>
C26Choice(p, c) ==
  CASE p = "g" -> {"noise", "tone", "tone2", "twotone", "twohigh", "gaps", "bursts", "silence", "impulse", "ints"}
    [] p = "f" -> {"0.02", "0.11", "0.237", "0.333", "0.45"}
    [] p = "win" -> IF c.wd = "yes" THEN {DefWin} ELSE WinSet
    [] p = "nf" -> {1, 2, 3, 5, 9, 21}
    [] p = "bf" -> {"dflt", "off", "on", "on2", "on3"}
    [] p = "cut" -> IF c.bf \in {"on", "on2", "on3"} /\ c.fs <= 6000 THEN {"wide", "band", "low", "nyq", "high"} ELSE {"dflt", "dflt2", "wide", "band", "low", "nyq", "high"}
    [] p = "pos" -> {"dflt", "yes", "no"}
    [] OTHER -> StdChoice(p, c)
C26Sig(c) == LET base == [n |-> SigLen(c), seed |-> Seed0 + c.seed, fs |-> c.fs, amp |-> c.amp] IN
  CASE c.g \in {"tone", "tone2"} -> [g |-> "tone", f |-> D(c.f) (.) F(c.fs)] @@ base
    [] c.g = "twotone" -> [g |-> "twotone", f |-> D(c.f) (.) F(c.fs), f2 |-> D("0.171") (.) F(c.fs), a2 |-> D("0.9")] @@ base
    [] c.g = "twohigh" -> [g |-> "twotone", f |-> D("0.485") (.) F(c.fs), f2 |-> D(c.f) (.) F(c.fs), a2 |-> D("0.1")] @@ base
    [] c.g = "impulse" -> [g |-> "impulse", at |-> c.seed] @@ base
    [] c.g = "silence" -> [g |-> "silence"] @@ base
    [] OTHER -> SigDesc(c)
C26Cut(c) == CASE c.cut \in {"dflt", "dflt2"} -> <<>> [] c.cut = "wide" -> [lower_cutoff |-> 100, upper_cutoff |-> D("0.4") (.) F(c.fs)]
               [] c.cut = "band" -> [lower_cutoff |-> 300, upper_cutoff |-> 1000] [] c.cut = "low" -> [lower_cutoff |-> D("20"), upper_cutoff |-> D("200")]
               [] c.cut = "nyq" -> [lower_cutoff |-> 50 + c.seed, upper_cutoff |-> (F(Rnd(c, 90, 455, 498)) (.) F(c.fs)) (/) F(1000)]
               [] c.cut = "high" -> [lower_cutoff |-> (F(Rnd(c, 91, 200, 400)) (.) F(c.fs)) (/) F(1000), upper_cutoff |-> (F(Rnd(c, 92, 440, 495)) (.) F(c.fs)) (/) F(1000)]
DomArgs(a) == a @@ [butter_filter |-> FALSE, lower_cutoff |-> 50, upper_cutoff |-> 3000, nfft |-> 512, win_len |-> D("0.025"), win_hop |-> D("0.01"), win_type |-> "hamming"]
C26Session(c) ==
  <<[calls |-> <<CallOf("get_dominant_frequencies", SigWith(C26Sig(c)) @@ [fs |-> c.fs] @@ Int0("nfft", c.nfft) @@ C26Cut(c)
       @@ Opt(c.bf # "dflt", [butter_filter |-> c.bf # "off"]) @@ Opt(c.pos # "dflt", [only_positive |-> c.pos = "yes"])
       @@ Opt(c.wd # "yes", [win_len |-> c.win[1], win_hop |-> c.win[2], win_type |-> c.wt]))>>]
      @@ Opt(c.g \in {"tone", "tone2"}, [tone |-> D(c.f) (.) F(c.fs)])>>
\* noise: what rounding in the filter may leave of a signal that has died away
\* the value reported for one windowed frame: the (rounded) frequency of some maximal bin
PeakOk(v, w, fs, nfft, noise) ==
  LET m == Magnitudes(w, nfft)  k == Floor((F(nfft) (.) v) (/) F(fs) (+) D("0.5"))  q == F(1000) (.) v IN
  /\ 0 <= k /\ k < Bins(nfft)
  /\ FAbs(v (-) ((F(k) (.) F(fs)) (/) F(nfft))) \preceq D("0.000500001")
  /\ FAbs(q (-) FFloor(q (+) D("0.5"))) \preceq D("1e-4")
  /\ (((F(1) (-) D("1e-6")) (.) MaxOf(m)) (-) noise) \preceq At(m, k)
DomOk(k) ==
  LET a == DomArgs(k.a)  L == FrameLen(F(a.win_len), F(a.fs))  S == FrameLen(F(a.win_hop), F(a.fs))
      x == IF a.butter_filter THEN ButterFilter(a.sig, 6, F(a.lower_cutoff), F(a.upper_cutoff), a.fs) ELSE a.sig
      w == Tapered(Frames(x, L, S), a.win_type, L)  v == k.out.val
      noise == IF a.butter_filter THEN D("1e-12") (.) MaxAbs(a.sig) ELSE F(0)
  IN /\ k.out.ok /\ Shape(v) = <<N(w)>> /\ \A m \in 0..(N(w) - 1) : PeakOk(At(v, m), w[m + 1], a.fs, a.nfft, noise)
\* a tone well inside the spectrum and the band, unfiltered or after the filter's transient
ToneOk(s, k) ==
  LET a == DomArgs(k.a)  L == FrameLen(F(a.win_len), F(a.fs))  S == FrameLen(F(a.win_hop), F(a.fs))
      len == IF L < a.nfft THEN L ELSE a.nfft
      inside == /\ (F(8 * a.fs) (/) F(len)) \prec s.tone /\ s.tone \prec (F(a.fs) (/) F(2) (-) (F(8 * a.fs) (/) F(len)))
                /\ L <= a.nfft
                /\ ~a.butter_filter
  IN inside => \A m \in 0..(N(k.out.val) - 1) : FAbs(At(k.out.val, m) (-) s.tone) \preceq ((F(a.fs) (/) F(a.nfft)) (+) D("0.001"))
C26Clauses(s, e) == <<Clause("get_dominant_frequencies", LAMBDA z : DomOk(s.calls[1]))>>
                    \o (IF Has(s, "tone") THEN <<Clause("tone", LAMBDA z : ToneOk(s, s.calls[1]))>> ELSE <<>>)
===================================================================================
