---------------------------------- MODULE Scen ----------------------------------
(* Shared vocabulary of the scenarios (what the client may do) and of the         *)
(* verdicts (what counts as agreeing with the specification).                     *)
EXTENDS Spafe, FiniteSets

RunSeed == EnvInt("VERIF_SEED") % 100000
Seed0 == RunSeed * 1000
Thorough == Env("VERIF_TIER") = "thorough"
Opt(cond, rec) == IF cond THEN rec ELSE <<>>

\* Numbers of a scenario's own: a fixed function of its seed (and of the run's), so that the values tried are
\* not only the ones written down here.  lo..hi may span at most 46337 values.
Mix(x, k) == (x * ((x * 7 + k) % 46337) + 331 * k + 17) % 46337
Rnd(c, salt, lo, hi) == LET s == IF Has(c, "seed") THEN c.seed ELSE 0
                            h == Mix(Mix(Mix((s * 101 + RunSeed * 7 + 1) % 46337, salt), s + 3), salt + 11)
                        IN lo + (h % (hi - lo + 1))
RndDec(c, salt, head, digits) == head \o ToString(Rnd(c, salt, digits \div 10, digits - 1))     \* e.g. "0." and 1000 give "0.123"
\* ---------------------------------------------------------------- standard parameters
FsSet == {4000, 8000, 11025, 12345, 16000, 22050, 44100, 48000, 96000, 192000}
DefWin == <<D("0.025"), D("0.01")>>
Tiny == <<D("0.004"), D("0.002")>>             \* for long histories of frames
\* <<win_len, win_hop>> in seconds
WinSet == { DefWin, <<D("0.02"), D("0.02")>>, <<D("0.03"), D("0.015")>>, <<D("0.016"), D("0.004")>>,
            <<D("0.0323"), D("0.0107")>>, <<D("0.01"), D("0.0099")>>, <<D("0.05"), D("0.013")>> }
Amps == {D("1"), D("1e-6"), D("1e-3"), D("30000"), D("1e-9"), D("1e-13")}
\* windows by their length in samples: short and odd ones, around powers of two, long ones
LensOf(wk) == CASE wk = "odd" -> {1, 2, 3, 5, 17, 50, 99, 241} [] wk = "pow" -> UNION {{2^k - 1, 2^k, 2^k + 1} : k \in 6..11} [] wk = "long" -> {511, 600, 777, 1019, 1500, 2205, 4000}
RndLen(c, k) == Rnd(c, 20 + k, 2, IF k = 1 THEN 1400 ELSE 300)
RndWins(c) == LET sec(n) == (F(n) (+) D("0.5")) (/) F(c.fs)
                  exact(n) == F(n) (/) F(c.fs)              \* win_len*fs may come out just below n
                  hop(k) == Rnd(c, 30 + k, 1 + RndLen(c, k) \div 4, RndLen(c, k))
              IN IF c.wk = "exact" THEN {<<exact(RndLen(c, k) + 1), exact(hop(k) + 1)>> : k \in 1..3} ELSE {<<sec(RndLen(c, k)), sec(hop(k))>> : k \in 1..3}
HopsOf(L) == {h \in {L, L - 1, L \div 2, L \div 3 + 1, (3 * L) \div 4} : h >= 1}
SampleWins(wk, fs) == LET sec(n) == (F(n) (+) D("0.5")) (/) F(fs) IN UNION {{<<sec(L), sec(h)>> : h \in HopsOf(L)} : L \in LensOf(wk)}
Bands == {"full", "edge", "low", "high", "mid", "narrow", "rand", "rand2", "nyq", "sub"}
NormChoice(c) == {"none", "mvn", "ms", "vn", "mn"}

ApsOf(fn) == LET kd == BankOf(fn) IN IF kd = "lin" THEN {"none"} ELSE Approaches(ScaleOf(kd)) \cup {"default"}
\* Zwicker's formula has no value at 0 Hz
ApChoices(fn, band) == IF band \in {"low", "mid", "narrow", "rand", "rand2", "tight", "tight2"} THEN ApsOf(fn) ELSE ApsOf(fn) \ {"Zwicker"}

\* 0 stands for: leave the option at its default
EffNfilts(c) == IF c.nfilts = 0 THEN BankDefaults(c.fn).nfilts ELSE c.nfilts
FixedWins == {"yes", "ptype", "plen", "phop"}
FixedWin(c) == CASE c.wd \in {"yes", "ptype"} -> {DefWin} [] c.wd = "plen" -> {<<D("0.03"), D("0.01")>>, <<D("0.01"), D("0.01")>>, <<D("0.0407"), D("0.01")>>}
                 [] c.wd = "phop" -> {<<D("0.025"), D("0.025")>>, <<D("0.025"), D("0.0043")>>, <<D("0.025"), D("0.0151")>>}
UpTo(n, s) == {k \in s : k <= n}
StdChoice(p, c) ==
  CASE p = "wd"   -> {"no", "no2", "no3", "yes", "ptype", "plen", "phop"}      \* yes: leave the window at its default; p..: give one of its fields only
    [] p = "fs"   -> FsSet \cup {Rnd(c, k, 2000, 48000) : k \in 1..3}
    [] p = "wk"   -> {"std", "std2", "std3", "std4", "odd", "pow", "long", "rand", "rand2", "exact"}
    [] p = "win"  -> IF Has(c, "wd") /\ c.wd \in FixedWins THEN FixedWin(c)
                     ELSE IF Has(c, "wk") /\ c.wk \in {"odd", "pow", "long"} THEN SampleWins(c.wk, c.fs)
                     ELSE IF Has(c, "wk") /\ c.wk \in {"rand", "rand2", "exact"} THEN RndWins(c) ELSE WinSet \cup {Tiny}
    [] p = "wt"   -> IF Has(c, "wd") /\ c.wd \in {"yes", "plen", "phop"} THEN {"hamming"} ELSE WinTypes
    [] p = "nf"   -> IF c.win = Tiny THEN {130, 300, 600, 1025, 2049} ELSE IF Has(c, "wk") /\ c.wk = "long" THEN {1, 2, 3, 6} ELSE {1, 2, 3, 4, 5, 9, 21, Rnd(c, 40, 6, 60)}
    [] p = "rem"  -> {"zero", "one", "last"}
    [] p = "g"    -> {"noise", "noise2", "gaps", "ints", "bursts", "toned", "offset"}
    [] p = "amp"  -> Amps \cup {F(Rnd(c, 41, 1, 99)) (.) FPow(F(10), F(Rnd(c, 42, -15, 3)))}
    [] p = "seed" -> 1..400
    [] p = "nfft" -> IF c.win = Tiny THEN {64, 100, 128} ELSE {0, 64, 128, 256, 300, 511, 512, 513, 777, 1024, 2048, 4096, 8192, Rnd(c, 43, 16, 300), Rnd(c, 44, 301, 1400), Rnd(c, 45, 1025, 4500)}
    [] p = "nfilts" -> {0, 1, 2, 3, 5, 8, 13, 20, 24, 26, 32, 40, 64} \cup (IF c.win = Tiny THEN {} ELSE {49, 100, 128, Rnd(c, 46, 4, 60), Rnd(c, 47, 61, 200)})
                       \cup (IF Has(c, "nfft") /\ c.nfft > 0 /\ c.nfft <= 400 THEN {Bins(c.nfft), c.nfft \div 2} ELSE {})
    [] p = "nceps" -> UpTo(EffNfilts(c), {1, 2, 5, 13, 20, Rnd(c, 48, 1, EffNfilts(c)), EffNfilts(c) - 1, EffNfilts(c)} \ {0}) \cup (IF EffNfilts(c) >= 13 THEN {0} ELSE {})
    [] p = "dct"  -> IF c.nfilts = 1 THEN {0, 2, 3, 4} ELSE {0, 1, 2, 3, 4}
    [] p = "band" -> Bands
    [] p = "ap"   -> ApChoices(c.fn, c.band)
    [] p = "scale" -> Scales \cup {"dflt"}
    [] p = "ue"   -> {"dflt", "on", "off"}
    [] p = "lift" -> {99, 98, 0, 1, 2, 3, 5, 10, -1, -2, -3, -7, -22, 11, 25, Rnd(c, 49, -45, -1), Rnd(c, 50, 1, 14)}   \* 99: not given; 98: None
    [] p = "norm" -> NormChoice(c)
    [] p = "pe"   -> {"dflt", "on", "off"}
    [] p = "pc"   -> {"dflt", "0.97", "0.9", "0.5", "0", "-0.3", "1", "1.7", "-1.2", RndDec(c, 51, "0.", 1000)}
    [] p = "gamma" -> {"dflt", "-0.5", "0.3", "-0.1", "1", "0", "0.0667", RndDec(c, 52, "-0.", 1000), RndDec(c, 53, "0.", 100)}
    [] p = "power" -> {"dflt", "1", "2", "3", "1.5", "0.5"}
    [] p = "order" -> IF c.fn \in PlpCeps THEN UpTo(EffNfilts(c), {1, 2, 5, 9, 13, Rnd(c, 54, 1, 20)}) \cup (IF EffNfilts(c) >= 13 THEN {0} ELSE {}) ELSE {0, 1, 2, 3, 8, 13, 20, Rnd(c, 55, 4, 30)} \cup (IF c.fn = "lpc" THEN {33} ELSE {})
    [] p = "oct"  -> {0, 1, 2, 5, 8, Rnd(c, 56, 1, 9)}
    [] p = "bins" -> {0, 12, 5, 36, Rnd(c, 57, 1, 48)}
    [] p = "thr"  -> {"dflt", "0.0005", "0.02", "0.002", "0", RndDec(c, 58, "0.00", 1000)}
    [] p = "f0"   -> {"dflt", "55", "100.5", "440", ToString(Rnd(c, 59, 30, 900))}
    [] p = "q"    -> {"dflt", "0.5", "0.8", "1.5", RndDec(c, 60, "0.", 100), RndDec(c, 61, "1.", 100)}
    [] p = "ratio" -> {"dflt", "1", "0.5", "1.5", "2", "0.8", RndDec(c, 62, "0.", 100), RndDec(c, 63, "1.", 100)}
    [] p = "cqfs" -> {8000, 11025, 16000, 22050, Rnd(c, 64, 4000, 24000)}
    [] p = "cqnfft" -> {0, 256, 512, 1024, 1000, Rnd(c, 65, 200, 1100), -1, -2}      \* below 0: the length of the window of one of the pitches
    [] p = "cqceps" -> {0, 1, 2, 7, 13, 20, 200, Rnd(c, 66, 1, 40)}

Win(c) == [win_len |-> c.win[1], win_hop |-> c.win[2], win_type |-> IF Has(c, "wt") THEN c.wt ELSE "hamming"]
Drop(a, ks) == [x \in (DOMAIN a) \ ks |-> a[x]]
WinGiven(c) == IF ~Has(c, "wd") THEN Win(c) ELSE CASE c.wd = "ptype" -> [win_type |-> c.wt] [] c.wd = "plen" -> [win_len |-> c.win[1]] [] c.wd = "phop" -> [win_hop |-> c.win[2]] [] OTHER -> Win(c)
WinArg(c) == IF Has(c, "wd") /\ c.wd = "yes" THEN <<>> ELSE [window |-> ("$win" :> WinGiven(c))]
LenOf(c) == FrameLen(c.win[1], F(c.fs))
HopOf(c) == FrameLen(c.win[2], F(c.fs))
\* signal length from the number of frames and the remainder of (N-L) mod S
Remainder(c) == CASE c.rem = "zero" -> 0 [] c.rem = "one" -> (IF HopOf(c) > 1 THEN 1 ELSE 0) [] c.rem = "last" -> HopOf(c) - 1
SigLen(c) == LenOf(c) + (c.nf - 1) * HopOf(c) + Remainder(c)
\* whole-numbered samples may come as integers, as a list or laid out otherwise; the values are the same
IntReps == <<"int16", "int32", "int64", "intlist", "strided", "bigendian", "readonly">>
AsIs(c) == IF c.g = "ints" /\ c.seed % 3 # 0 THEN IntReps[1 + (c.seed % Len(IntReps))] ELSE "float64"
SigDesc(c) ==
  LET L == LenOf(c)  S == HopOf(c) IN
  [g |-> IF c.g = "noise2" THEN "noise" ELSE c.g, n |-> SigLen(c), seed |-> Seed0 + c.seed, fs |-> c.fs, amp |-> IF Has(c, "amp") /\ AsIs(c) = "float64" THEN c.amp ELSE F(1)]
  @@ (CASE c.g = "gaps" -> [gaps |-> <<<<S - 5, 2 * S + L + 5>>>>]
        [] c.g = "bursts" -> [levels |-> <<D("1"), D("0.01"), D("3"), D("0.2"), D("0.0005")>>, block |-> (S * 3) \div 2 + 1]
        [] c.g = "offset" -> [dc |-> D("30")]
        [] c.g = "toned" -> [f |-> F(Rnd(c, 67, 20, 420)) (.) (F(c.fs) (/) F(1000)), eps |-> D("0.01")]
        [] OTHER -> <<>>)
SigArg(c) == [sig |-> ("$sig" :> (SigDesc(c) @@ Opt(AsIs(c) # "float64", [as |-> AsIs(c)])))]
SigWith(desc) == [sig |-> ("$sig" :> desc)]

NfftOf(c) == IF Has(c, "nfft") /\ c.nfft > 0 THEN c.nfft ELSE 512
BandArgs(c) == CASE c.band = "full"  -> <<>>
                 [] c.band = "edge"  -> [high_freq |-> F(c.fs) (/) F(2)]
                 [] c.band = "low"   -> [low_freq |-> 100]
                 [] c.band = "high"  -> [high_freq |-> D("0.37") (.) F(c.fs)]
                 [] c.band = "mid"   -> [low_freq |-> D("157.3"), high_freq |-> D("0.41") (.) F(c.fs)]
                 [] c.band = "rand"  -> [low_freq |-> F(Rnd(c, 68, 1, 150)) (.) (F(c.fs) (/) F(1000)), high_freq |-> F(Rnd(c, 69, 210, 499)) (.) (F(c.fs) (/) F(1000))]
                 [] c.band = "rand2" -> [low_freq |-> Rnd(c, 70, 1, 400), high_freq |-> (c.fs \div 2) - Rnd(c, 71, 1, c.fs \div 8)]
                 \* a fraction of a bin from the ends of the spectrum
                 [] c.band = "nyq"   -> [high_freq |-> (F(c.fs) (/) F(2)) (-) ((F(Rnd(c, 72, 1, 9)) (.) F(c.fs)) (/) F(10 * NfftOf(c)))]
                 [] c.band = "sub"   -> [low_freq |-> (F(Rnd(c, 73, 1, 9)) (.) F(c.fs)) (/) F(10 * NfftOf(c))]
                 \* a few percent wide: filters closer together than the bins
                 [] c.band \in {"tight", "tight2"} -> LET lo == F(Rnd(c, 74, 10, 470)) (.) (F(c.fs) (/) F(1000)) IN
                       [low_freq |-> lo, high_freq |-> FMin(F(c.fs) (/) F(2), lo (.) (F(1) (+) (F(Rnd(c, 75, 1, 30)) (/) F(500))))]
                 [] c.band = "f0low" -> [low_freq |-> IF c.f0 = "dflt" THEN 120 ELSE D(c.f0)]                   \* the lowest pitch on the edge
                 [] c.band = "f0high" -> [high_freq |-> F(4) (.) (IF c.f0 = "dflt" THEN F(120) ELSE D(c.f0))]   \* a pitch on the upper edge
                 [] c.band = "narrow" -> [low_freq |-> D("0.05") (.) F(c.fs), high_freq |-> D("0.2") (.) F(c.fs)]
ApArg(c) == IF c.ap = "none" \/ c.ap = "default" THEN <<>> ELSE [conversion_approach |-> c.ap]
Dec(name, str) == IF str = "dflt" THEN <<>> ELSE (name :> D(str))
Int0(name, v) == IF v = 0 THEN <<>> ELSE (name :> v)
\* options may be left out or given as None
Nullable(fn) == (IF fn \in FrameFns THEN {"window"} ELSE {}) \cup (IF fn \in BankFns THEN {"fbanks"} ELSE {}) \cup (IF fn \in (BankFns \cup CqtFns) THEN {"high_freq"} ELSE {})
                \cup (IF fn \in (BankCeps \cup PlpCeps \cup {"pncc", "lpcc", "cqcc"}) THEN {"normalize"} ELSE {})
NoneArgs(c) == IF Has(c, "fn") /\ Has(c, "seed") /\ c.seed % 3 = 0 THEN [x \in Nullable(c.fn) |-> ("$none" :> 1)] ELSE <<>>
CqFit(nfft, fs, oct, bins, f0, q, pick) ==
  IF nfft >= 0 THEN nfft ELSE
  LET o == IF oct = 0 THEN 7 ELSE oct  b == IF bins = 0 THEN 24 ELSE bins
      p == [fs |-> fs, octaves |-> o, bins |-> b, f0 |-> IF f0 = "dflt" THEN F(120) ELSE D(f0), q |-> IF q = "dflt" THEN F(1) ELSE D(q)]
      len(k) == CqtLen(At(CqtPitches(p), k), p)
      fit == {k \in 0..(o * b - 1) : 100 <= len(k) /\ len(k) <= 1100}          \* an interval
      lo == CHOOSE k \in fit : \A m \in fit : k <= m IN
  IF fit = {} THEN 512 ELSE len(lo + (pick % Cardinality(fit)))
NfftArg(c) == IF ~Has(c, "nfft") THEN <<>> ELSE Int0("nfft", IF c.nfft >= 0 THEN c.nfft ELSE CqFit(c.nfft, c.fs, c.oct, c.bins, c.f0, c.q, c.seed))
\* every argument the scenario mentions
Args(c) ==
  SigArg(c) @@ [fs |-> c.fs] @@ WinArg(c)
  @@ NfftArg(c) @@ Opt(Has(c, "nfilts"), Int0("nfilts", c.nfilts))
  @@ Opt(Has(c, "band"), BandArgs(c)) @@ Opt(Has(c, "ap"), ApArg(c))
  @@ Opt(Has(c, "scale") /\ c.scale # "dflt", [scale |-> c.scale])
  @@ Opt(Has(c, "nceps"), Int0("num_ceps", c.nceps)) @@ Opt(Has(c, "dct"), Int0("dct_type", c.dct))
  @@ Opt(Has(c, "ue") /\ c.ue # "dflt", [use_energy |-> c.ue = "on"])
  @@ Opt(Has(c, "lift") /\ c.lift # 99, [lifter |-> IF c.lift = 98 THEN ("$none" :> 1) ELSE c.lift])
  @@ Opt(Has(c, "norm") /\ c.norm \notin {"none", "none2"}, [normalize |-> c.norm])
  @@ Opt(Has(c, "pe") /\ c.pe # "dflt", [pre_emph |-> c.pe = "on"])
  @@ Opt(Has(c, "pc"), Dec("pre_emph_coeff", c.pc)) @@ Opt(Has(c, "gamma"), Dec("gamma", c.gamma))
  @@ Opt(Has(c, "power"), Dec("power", c.power)) @@ Opt(Has(c, "order"), Int0("order", c.order))
  @@ Opt(Has(c, "oct"), Int0("number_of_octaves", c.oct)) @@ Opt(Has(c, "bins"), Int0("number_of_bins_per_octave", c.bins))
  @@ Opt(Has(c, "thr"), Dec("spectral_threshold", c.thr)) @@ Opt(Has(c, "f0"), Dec("f0", c.f0))
  @@ Opt(Has(c, "q"), Dec("q_rate", c.q)) @@ Opt(Has(c, "ratio"), Dec("resampling_ratio", c.ratio))
  @@ NoneArgs(c)

\* one call in five of those that take a bank is given one of its own, with no fewer rows than nfilts says
Supplied(c) ==
  IF ~(c.fn \in BankFns /\ c.seed % 5 = 1) THEN <<>>
  ELSE [fbanks |-> ("$mat" :> [g |-> "pos", shape |-> <<EffNfilts(c) + (IF c.fn = "pncc" THEN 0 ELSE <<0, 1, 7>>[1 + ((c.seed \div 5) % 3)]), Bins(NfftOf(c))>>, seed |-> Seed0 + c.seed])]
BArgs(c) == Supplied(c) @@ Args(c)

FramePlan == <<"seed", "wd", "fs", "wk", "win", "wt", "nf", "rem", "g", "amp", "nfft">>
BankPlan  == <<"nfilts", "band", "ap", "scale">>
CepPlan   == <<"nceps", "dct">>
PrePlan   == <<"pe", "pc">>
CqtPlan   == <<"oct", "bins", "thr", "f0", "q">>
\* The parameters a function has at all
PlanOf(fn) == CASE fn \in Spectrograms -> FramePlan \o BankPlan \o PrePlan
                [] fn \in (BankCeps \ {"msrcc", "psrcc"}) -> FramePlan \o BankPlan \o CepPlan \o PrePlan
                [] fn \in {"msrcc", "psrcc"} -> FramePlan \o BankPlan \o CepPlan \o PrePlan \o <<"gamma">>
                [] fn = "pncc" -> FramePlan \o BankPlan \o CepPlan \o PrePlan \o <<"power">>
                [] fn \in PlpCeps -> FramePlan \o BankPlan \o <<"order">> \o PrePlan
                [] fn \in {"lpc", "lpcc"} -> Cut(FramePlan, 0, Len(FramePlan) - 1) \o <<"order">> \o PrePlan
                [] fn = "cqt_spectrogram" -> FramePlan \o CqtPlan \o <<"band">> \o PrePlan
                [] fn = "cqcc" -> FramePlan \o CqtPlan \o <<"band", "nceps", "dct", "ratio">> \o PrePlan
IsCqt(c) == Has(c, "fn") /\ c.fn \in CqtFns
\* the whole of them, for plans over several functions: what a function does not have is set to a dummy
AnyPlan == FramePlan \o BankPlan \o <<"order">> \o CepPlan \o PrePlan \o <<"gamma", "power">> \o CqtPlan \o <<"ratio">>
Mentions(s, p) == \E n \in 1..Len(s) : s[n] = p
AnyChoice(p, c) ==
  IF Has(c, "fn") /\ Mentions(AnyPlan, p) /\ ~Mentions(PlanOf(c.fn), p) THEN {0}
  ELSE CASE p = "fs" /\ IsCqt(c) -> StdChoice("cqfs", c)
         [] p = "nfft" /\ IsCqt(c) -> StdChoice("cqnfft", c)
         [] p = "wk" /\ IsCqt(c) -> {"std", "std2", "std3", "pow", "rand"}
         [] p = "win" /\ IsCqt(c) -> (IF c.wd \in FixedWins THEN FixedWin(c) ELSE IF c.wk = "pow" THEN SampleWins("pow", c.fs) ELSE IF c.wk = "rand" THEN RndWins(c) ELSE {DefWin, <<D("0.02"), D("0.02")>>, <<D("0.05"), D("0.02")>>})
         [] p = "band" /\ IsCqt(c) -> Bands \cup {"f0low", "f0high"}
         [] p = "nf" /\ IsCqt(c) -> {1, 2, 3, 5, 9}
         [] p = "nceps" /\ IsCqt(c) -> StdChoice("cqceps", c)
         [] p = "dct" /\ IsCqt(c) -> {0, 1, 2, 3, 4}
         [] p = "ratio" -> {r \in StdChoice(p, c) : r = "dflt" \/ Trunc(F(c.nf) (.) D(r)) >= 1}        \* at least one frame must remain
         [] p = "nfilts" /\ c.fn \in PlpCeps /\ c.win = Tiny -> {13, 20}
         [] OTHER -> StdChoice(p, c)
\* the scenario without the dummies
Trim(c) == [p \in {q \in DOMAIN c : ~(Mentions(AnyPlan, q) /\ ~Mentions(PlanOf(c.fn), q))} |-> c[p]]
AnyArgs(c) == BArgs(Trim(c))
\* Long recordings: thousands of short frames
LongPlan == <<"fn">> \o AnyPlan
LongNf(c) == {4096, 4097, 8193, 10001, Rnd(c, 80, 3000, 12000), Rnd(c, 81, 3000, 12000)}
LongChoice(p, c) ==
  IF Has(c, "fn") /\ Mentions(AnyPlan, p) /\ ~Mentions(PlanOf(c.fn), p) THEN {0}
  ELSE CASE p = "wd" -> {"no"} [] p = "fs" -> {8000} [] p = "wk" -> {"std"} [] p = "win" -> {Tiny} [] p = "nf" -> LongNf(c)
         [] p = "nfft" -> IF IsCqt(c) THEN {128, 200} ELSE {32, 50, 64}
         [] p = "nfilts" -> {3, 5, 8, 13} [] p = "order" -> {1, 2, 3}
         [] p = "oct" -> {1, 2} [] p = "bins" -> {3, 5} [] p = "f0" -> {"440", "700"} [] p = "thr" -> {"dflt"}
         [] p = "nceps" -> IF IsCqt(c) THEN {2, 3} ELSE {1, 2, 3}
         [] p = "ratio" -> {"dflt", "0.8", "1.5"}
         [] p = "amp" -> {D("1"), D("1e-3"), D("30000")}
         [] p = "band" -> {"full", "mid", "high"}
         [] OTHER -> AnyChoice(p, c)


CallOf(fn, a) == [fn |-> fn, a |-> a]
Model(c) == [model |-> TRUE] @@ c
With(c, r) == r @@ c                                \* scenario c with some fields replaced

\* ------------------------------------------------ scenarios decided by rounding only
NearInt(u) == LET v == u (-) FFloor(u) IN v \prec D("1e-7") \/ (F(1) (-) v) \prec D("1e-7")
\* a bark bank whose first or last bin, or a cut-off of whose curve, is decided by rounding
FragileBark(p) ==
  \/ NearInt(BarkPos(HzToBark(p.high, p.ap), p)) /\ p.nfilts > 1
  \/ ~FEq(p.low, F(0)) /\ NearInt(BarkPos(HzToBark(p.low, p.ap), p))
  \/ LET c == BarkCenters(p)  z == BarkAxis(p) IN
     \E j \in 0..(N(c) - 1) : LET d == z (-) At(c, j) IN
        MinOf(FAbs(d (-) D("2.5"))) \prec D("1e-9") \/ MinOf(FAbs(d (+) D("1.3"))) \prec D("1e-9")
\* a triangle that no bin is clearly inside of, while some bin is within rounding error of its feet
FragileTri(pts, f, n) ==
  \E j \in 0..(n - 1) :
    LET lo == At(pts, j)  m == At(pts, j + 1)  hi == At(pts, j + 2)
        r == FMin((f (-) lo) (/) (m (-) lo), (hi (-) f) (/) (hi (-) m))
    IN MaxOf(r) \prec D("1e-5") /\ D("-1e-9") \prec MaxOf(r)
FragileBank(fn, p) ==
  LET kd == BankOf(fn)  f == BinFreqs(p.nfft, p.fs) IN
  CASE kd = "bark" -> FragileBark(p)
    [] kd = "mel"  -> FragileTri(MelToHz(MelPoints(p), p.ap), f, p.nfilts)
    [] kd = "imel" -> FragileTri(MelToHz(MelPoints(p), p.ap), (p.low (+) p.high) (-) f, p.nfilts)
    [] kd = "lin"  -> FragileTri(LinPoints(p), f, p.nfilts)
    [] kd = "gamma" -> FALSE
NoSig(c) == [c EXCEPT !.a = Drop(c.a, {"sig", "window", "fbanks", "spectrum"})]
\* a taper that is nothing but rounding
NoTaper(c) == Has(c.a, "window") /\ Has(c.a.window, "$win") /\
              LET w == c.a.window["$win"] @@ DefaultWindow IN w.win_type = "blackman" /\ FrameLen(F(w.win_len), F(Full(c).fs)) = 2
NoNones(c) == [c EXCEPT !.a = GivenArgs(c.a)]
Fragile(c0) == LET c == NoNones(c0)  a == Full(NoSig(c)) IN NoTaper(c) \/
  CASE c.fn \in (BankFns \cup BankCtors) /\ ~Has(c.a, "fbanks") -> FragileBank(c.fn, BankParams(a))
    [] c.fn \in CqtFns -> LET w == (IF Has(c.a, "window") THEN c.a.window["$win"] ELSE <<>>) @@ DefaultWindow
                              p == CqtParams([window |-> w] @@ a) IN
                          \/ CqtFragile(p)
                          \/ c.fn = "cqcc" /\ CqtBlind(p, FrameLen(F(w.win_len), F(a.fs)))
                          \/ CqtAllBlind(p, FrameLen(F(w.win_len), F(a.fs)))
                          \/ N(CqtFreqs(p)) <= (IF a.dct_type = 1 THEN 1 ELSE 0)
    [] OTHER -> FALSE
\* some filter has no bin at all
EmptyRow(c) == LET B == SpecBank(c.fn, Full(NoSig(NoNones(c)))) IN \E j \in 1..N(B) : MaxOf(B[j]) \prec D("1e-4")

\* --------------------------------------------------------------- verdicts
\* A clause is evaluated lazily inside Guarded, so that it is total.
Clause(name, Op(_)) == [n |-> name, ok |-> Guarded(Op)]
Ok(s, j) == s.calls[j].out.ok
Val(s, j) == s.calls[j].out.val
Arg(s, j) == Full(s.calls[j])
Returned(s) == Clause("returns", LAMBDA z : \A j \in 1..Len(s.calls) : Ok(s, j))
IsMatrix(v) == Len(Shape(v)) = 2

\* Agreement of two results of the implementation itself
TolOf(fn) == IF fn \in PlpCeps THEN D("1e-4") ELSE IF fn \in {"lpc", "lpcc"} THEN D("1e-6") ELSE D("1e-8")
SameVal(u, v, tol) ==
  IF IsRec(v) THEN IsRec(u) /\ CloseA(u.re, v.re, tol) /\ CloseA(u.im, v.im, tol)
  ELSE IF Shape(v) = <<-1>> THEN Len(u) = Len(v) /\ \A n \in 1..Len(v) : CloseC(u[n], v[n], tol, D("1e-11"))
  ELSE CloseC(u, v, tol, D("1e-11"))
SameAs(fn, u, v) == SameVal(u, v, TolOf(fn))

\* v is the normalisation of x, up to rounding; nothing is asked where the spread divided by is nothing but rounding
NormalisedOk(v, x, type) ==
  LET sp == IF type = "ms" THEN F(1) ELSE Std(Flatten(x))  big == MaxAbs(x) IN
  \/ type # "ms" /\ sp \preceq (D("1e-7") (.) big)
  \/ LET want == Normalize(x, type) IN CloseE(v, want, D("1e-7"), (D("1e-9") (.) MaxAbs(want)) (+) ((D("1e-10") (.) big) (/) sp))

\* Does the recorded result of call c agree with the specified one?  x: data of the machine at its end.
LpOk(a, m) == /\ N(a) = N(m.a) /\ AllFinite(a) /\ FEq(At(a, 0), F(1))
              /\ SolvesYuleWalker(m.r, a, D("1e-6"))
              /\ D("1e-7") \prec m.rc => CloseA(a, m.a, D("1e-6"))
LpErrOk(e, m) == CloseE(e, Dot(m.r, m.a), D("1e-6"), D("1e-8") (.) At(m.r, 0))
LpcOk(v, x) == /\ Shape(v[1]) = <<N(x.lp), N(x.lp[1].a)>> /\ Shape(v[2]) = <<N(x.lp), 1>>
               /\ \A m \in 1..N(x.lp) : LpOk(v[1][m], x.lp[m]) /\ LpErrOk(At(v[2][m], 0), x.lp[m]) /\ F(0) \preceq At(v[2][m], 0)
\* a row of LPCC: undo the recursion and check the model it came from
LpcepOk(c, m) == LET a == LpModel(c)  err == LpModelErr(c) IN
   /\ N(c) = N(m.a) /\ AllFinite(c)
   /\ IF FEq(At(m.r, 0), F(0)) THEN CloseE(c, Cat(<<Ln(ZeroToEps(F(0)))>>, Const(N(c) - 1, F(0))), D("1e-9"), D("1e-12"))
      ELSE /\ SolvesWithin(m.r, a, D("1e-6"), err)
           /\ LET t == m.r (.) a IN FAbs(Exp(At(c, 0)) (-) Sum(t)) \preceq ((D("1e-6") (.) Sum(FAbs(t))) (+) (err (.) Sum(FAbs(m.r))))
           /\ D("1e-7") \prec m.rc => CloseA(Cut(c, 1, N(c) - 1), Cut(LpCepstrum(m.a, m.e, N(c)), 1, N(c) - 1), D("1e-6"))
LpccOk(v, x) == /\ IsMatrix(v) /\ N(v) = N(x.lp) /\ \A m \in 1..N(v) : LpcepOk(v[m], x.lp[m])
CqtOk(v, x) == \A p \in 1..2 : LET u == IF p = 1 THEN v.re ELSE v.im IN CloseE(u, x.x[p], D("1e-9"), (D("1e-9") (.) MaxAbs(x.x[p])) (+) (D("1e-14") (.) MaxAbs(x.fr)))

\* The phase of a spectrum that is zero is not defined (+0 or -0), only that the row is finite.
PhaseOk(c, v, x) ==
  LET silent == {m \in 1..N(x.mag) : FEq(MaxOf(x.mag[m]), F(0))}
      keep(M) == Map(SelectSeq([m \in 1..N(x.mag) |-> m], LAMBDA m : m \notin silent), LAMBDA m : M[m])
  IN IF silent = {} THEN CloseC(v, x.out, D("1e-6"), D("1e-11"))
     ELSE /\ Shape(v) = Shape(x.out)
          /\ \/ Has(c.a, "normalize")
             \/ Cardinality(silent) = N(x.mag)
             \/ AllFinite(v) /\ CloseC(keep(v), keep(x.out), D("1e-6"), D("1e-11"))

\* nothing is asked where a normalisation divides by a spread that is nothing but rounding
NoSpread(c, x) == Has(c.a, "normalize") /\ c.a.normalize # "ms" /\ Std(Flatten(x.x)) \preceq (D("1e-7") (.) MaxAbs(x.x))
\* The machine run to its end outside the state graph, from a signal (and, again, from what the cosine transform is given) moved
\* by a little more than rounding moves a spectrum: what that does to the result is how far rounding may have moved the recorded one.
Jiggle(x, q) == x (.) (F(1) (+) (D("1e-13") (.) Sin((Range0(N(x)) (+) F(1)) (.) F(q))))
RECURSIVE JiggleStages(_, _, _, _, _)
JiggleStages(pc, fn, a, d, q) ==
  IF pc = <<>> \/ Has(d, "exc") THEN d
  ELSE JiggleStages(Tail(pc), fn, a, Stage(Head(pc), fn, a, IF Head(pc) = "dct" THEN Set(d, Map(d.x, LAMBDA r : Jiggle(r, q))) ELSE d), q)
Jiggled(c, q) == JiggleStages(Route(c.fn), c.fn, Full(c), [x |-> Jiggle(c.a.sig, q)], q).out
WithinRounding(c, v, x) ==
  LET y == <<Jiggled(c, 11), Jiggled(c, 17), Jiggled(c, 29)>> IN
  /\ Shape(v) = Shape(x.out) /\ AllFinite(v)
  /\ \A m \in 1..N(v) :
       LET dev == MaxDiff(y[1][m], x.out[m]) (+) (MaxDiff(y[2][m], x.out[m]) (+) MaxDiff(y[3][m], x.out[m]))
       IN CloseE(v[m], x.out[m], D("1e-6"), (F(10) (.) dev) (+) (D("1e-9") (.) MaxAbs(x.out[m])))
Agrees(c, x) ==
  IF Has(x, "exc") THEN ~c.out.ok /\ c.out.exc = x.exc
  ELSE /\ c.out.ok
       /\ LET v == c.out.val IN
          CASE c.fn = "lpc" -> LpcOk(v, x)
            [] c.fn \in ({"lpcc"} \cup PlpCeps) -> LpccOk(v, x) \/ WithinRounding(c, v, x)
            [] c.fn = "cqt_spectrogram" -> CqtOk(v, x)
            [] c.fn = "bark_filter_banks" -> BarkAdmissible(v[1], BankParams(Full(c))) /\ CloseE(v[2], x.out[2], D("1e-9"), D("1e-9"))
            [] c.fn \in (BankCtors \ {"bark_filter_banks"}) -> CloseE(v[1], x.out[1], D("1e-8"), D("1e-9")) /\ CloseE(v[2], x.out[2], D("1e-9"), D("1e-7"))
            [] c.fn \in Spectrograms -> CloseE(v[1], x.out[1], D("1e-7"), D("1e-12") (.) MaxAbs(x.out[1])) /\ CloseA(v[2], x.out[2], D("1e-9"))
            [] NoSpread(c, x) -> Shape(v) = Shape(x.x)
            [] c.fn = "psrcc" -> \/ PhaseOk(c, v, x) \/ WithinRounding(c, v, x)
                                 \/ Has(c.a, "normalize") /\ Shape(v) = Shape(x.x) /\ NormalisedOk(v, x.x, c.a.normalize)
            [] OTHER -> \/ CloseC(v, x.out, D("1e-6"), D("1e-11")) \/ WithinRounding(c, v, x)
                        \/ Has(c.a, "normalize") /\ Shape(v) = Shape(x.x) /\ NormalisedOk(v, x.x, c.a.normalize)
Conforms(s, e, j) == Clause("conforms:" \o s.calls[j].fn, LAMBDA z : Agrees(s.calls[j], e[j]))
AllConform(s, e) == Tab(Len(s.calls), LAMBDA j : Conforms(s, e, j + 1))
=================================================================================
