----------------------------------- MODULE C28 -----------------------------------
(* The library is a function of the contents of its arguments.  The client's       *)
(* history is a sequence of actions: calls, in-place changes of its own objects,    *)
(* and overwriting of results it was given.  Every call must return what it returns *)
(* as the only call of a pristine process.                                          *)
EXTENDS Scen
DescFs == {"spectral_centroid", "spectral_skewness", "spectral_kurtosis", "spectral_spread"}
DescNo == {"spectral_entropy", "spectral_flatness", "spectral_rolloff", "spectral_flux"}
Convs == {"hz2mel", "mel2hz", "hz2bark", "bark2hz", "hz2erb", "erb2hz"}
Misc == {"extract_feats", "get_dominant_frequencies", "compute_yin", "normalize_ceps", "lifter_ceps", "deltas", "rasta_filter", "framing", "windowing", "pre_emphasis"}
AllFns == FrameFns \cup BankCtors \cup DescFs \cup DescNo \cup Convs \cup Misc
Takes(fn) == CASE fn \in FrameFns \cup {"extract_feats", "get_dominant_frequencies", "compute_yin", "framing", "pre_emphasis"} -> "sig"
               [] fn \in {"normalize_ceps", "deltas", "rasta_filter"} -> "x" [] fn = "lifter_ceps" -> "ceps" [] fn = "windowing" -> "frames"
               [] fn \in DescFs \cup DescNo -> "spectrum" [] OTHER -> "none"
S0 == [g |-> "noise", n |-> 700, seed |-> Seed0 + 5, fs |-> 8000]
Obj(fn) == CASE Takes(fn) = "sig" -> ("$sig" :> S0) [] Takes(fn) \in {"x", "ceps", "frames"} -> ("$mat" :> [g |-> "noise", shape |-> <<9, 13>>, seed |-> Seed0 + 6])
             [] Takes(fn) = "spectrum" -> ("$mat" :> [g |-> "pos", shape |-> <<64>>, seed |-> Seed0 + 7]) [] OTHER -> <<>>
W0 == [win_len |-> D("0.025"), win_hop |-> D("0.01"), win_type |-> "hamming"]
Base(fn) ==
  (IF Takes(fn) = "none" THEN <<>> ELSE (Takes(fn) :> Obj(fn)))
  @@ (CASE fn \in CqtFns -> [fs |-> 8000, pre_emph |-> TRUE, window |-> ("$win" :> W0), number_of_octaves |-> 3, number_of_bins_per_octave |-> 8, f0 |-> 200]
        [] fn \in FrameFns -> [fs |-> 8000, pre_emph |-> TRUE, window |-> ("$win" :> W0)]
        [] fn \in BankCtors -> [fs |-> 8000] [] fn = "spectral_centroid" -> [fs |-> 8000] [] fn \in DescFs -> [fs |-> 8000, sig |-> ("$sig" :> S0)]
        [] fn \in {"hz2mel", "hz2bark", "hz2erb"} -> [f |-> 1000]
        [] fn = "mel2hz" -> [fm |-> 1000] [] fn = "bark2hz" -> [fb |-> 8] [] fn = "erb2hz" -> [fe |-> 10]
        [] fn \in {"extract_feats", "get_dominant_frequencies", "compute_yin", "framing"} -> [fs |-> 8000]
        [] fn = "windowing" -> [frame_len |-> 13] [] OTHER -> <<>>)
WinAlt(r) == [window |-> ("$win" :> (r @@ W0))]
FrameAlts == << [fs |-> 11025], [pre_emph |-> FALSE], [pre_emph_coeff |-> D("0.5")], WinAlt([win_len |-> D("0.02")]), WinAlt([win_hop |-> D("0.0125")]),
                WinAlt([win_type |-> "hanning"]), WinAlt([win_type |-> "kaiser"]), SigWith([seed |-> Seed0 + 8] @@ S0), SigWith([n |-> 900] @@ S0), SigWith([n |-> 360] @@ S0),
                [fs |-> 8001], [pre_emph_coeff |-> D("0.9703")], WinAlt([win_len |-> D("0.02513")]), WinAlt([win_hop |-> D("0.01013")]), SigWith([ops |-> <<<<"nudge", 300>>>>] @@ S0),
                SigWith([ops |-> <<<<"edit", 350, 360, 3>>>>] @@ S0), SigWith([ops |-> <<<<"gain", D("2")>>>>] @@ S0), WinAlt([win_hop |-> D("0.0253")]),
                SigWith([g |-> "silence"] @@ S0), SigWith([g |-> "gaps", gaps |-> <<<<150, 520>>>>] @@ S0), SigWith([ops |-> <<<<"gain", D("1e-9")>>>>] @@ S0) >>
BankAlts(fn) == << [nfft |-> 256], [nfft |-> 1024], [nfilts |-> 20], [nfilts |-> 26], [nfft |-> 511], [nfft |-> 513], [nfilts |-> 25], [low_freq |-> 3], [low_freq |-> D("0.3")], [high_freq |-> 3999], [high_freq |-> D("3999.7")], [low_freq |-> 100], [high_freq |-> 3000], [high_freq |-> D("3000.5")], [scale |-> "ascendant"], [scale |-> "descendant"], [low_freq |-> -5], [high_freq |-> 9000] >>
                \o (LET kd == BankOf(fn) IN CASE kd \in {"mel", "imel"} -> <<[conversion_approach |-> "Lindsay"]>> [] kd = "bark" -> <<[conversion_approach |-> "Schroeder"], [conversion_approach |-> "Terhardt"]>>
                      [] OTHER -> <<>>)
FbAlt == << [fbanks |-> ("$mat" :> [g |-> "pos", shape |-> <<24, 257>>, seed |-> 3])], [fbanks |-> ("$mat" :> [g |-> "pos", shape |-> <<26, 257>>, seed |-> 4]), nfilts |-> 26] >>
CepAlts == << [num_ceps |-> 7], [num_ceps |-> 31], [dct_type |-> 3], [lifter |-> 3], [lifter |-> -5], [normalize |-> "mvn"], [normalize |-> "mn"] >>
AltsOf(fn) ==
  CASE fn \in Spectrograms -> FrameAlts \o BankAlts(fn) \o FbAlt
    [] fn \in BankCeps -> FrameAlts \o BankAlts(fn) \o FbAlt \o CepAlts \o <<[use_energy |-> TRUE]>> \o (IF fn \in {"msrcc", "psrcc"} THEN <<[gamma |-> D("-0.3")], [gamma |-> D("-0.143")]>> ELSE <<>>)
    [] fn = "pncc" -> FrameAlts \o BankAlts(fn) \o FbAlt \o CepAlts \o <<[power |-> 1]>>
    [] fn \in PlpCeps -> FrameAlts \o BankAlts(fn) \o FbAlt \o <<[order |-> 9], [order |-> 30], [lifter |-> 3], [normalize |-> "ms"]>>
    [] fn = "lpc" -> FrameAlts \o <<[order |-> 9], [order |-> 16]>>
    [] fn = "lpcc" -> FrameAlts \o <<[order |-> 9], [lifter |-> 3], [normalize |-> "ms"]>>
    [] fn \in CqtFns -> FrameAlts \o <<[nfft |-> 1024], [low_freq |-> 210], [high_freq |-> 1000], [number_of_octaves |-> 2], [number_of_bins_per_octave |-> 6], [spectral_threshold |-> D("0.02")],
                                       [f0 |-> 220], [f0 |-> 201], [nfft |-> 513], [q_rate |-> D("0.99")], [spectral_threshold |-> D("0.0051")], [q_rate |-> D("0.8")]>> \o (IF fn = "cqcc" THEN CepAlts \o <<[resampling_ratio |-> D("0.6")]>> ELSE <<>>)
    [] fn \in BankCtors -> <<[fs |-> 11025]>> \o BankAlts(fn)
    [] fn \in DescFs \cup DescNo -> <<[spectrum |-> ("$mat" :> [g |-> "pos", shape |-> <<64>>, seed |-> Seed0 + 9])], [spectrum |-> ("$mat" :> [g |-> "pos", shape |-> <<65>>, seed |-> Seed0 + 7])]>>
          \o (IF fn \in DescFs THEN <<[fs |-> 11025]>> ELSE <<>>)
          \o (CASE fn = "spectral_centroid" -> <<[i |-> 2]>> [] fn = "spectral_rolloff" -> <<[k |-> D("0.5")], [k |-> D("1")]>> [] fn = "spectral_flux" -> <<[p |-> 1]>> [] OTHER -> <<>>)
          \o <<[spectrum |-> ("$mat" :> [g |-> "sparse", shape |-> <<64>>, seed |-> Seed0 + 7])]>>
    [] fn \in {"hz2mel", "hz2bark"} -> <<[f |-> 2000], [approach |-> IF fn = "hz2mel" THEN "Lindsay" ELSE "Schroeder"]>>
    [] fn = "hz2erb" -> <<[f |-> 2000], [f |-> ("$mat" :> [g |-> "pos", shape |-> <<8>>, seed |-> Seed0 + 7])]>>
    [] fn \in {"mel2hz", "bark2hz"} -> <<(IF fn = "mel2hz" THEN [fm |-> 500] ELSE [fb |-> 5]), [approach |-> IF fn = "mel2hz" THEN "Lindsay" ELSE "Schroeder"]>>
    [] fn = "erb2hz" -> <<[fe |-> 5]>>
    [] fn = "extract_feats" -> <<[fs |-> 11025], [nfft |-> 256], SigWith([seed |-> Seed0 + 8] @@ S0)>>
    [] fn = "get_dominant_frequencies" -> <<[fs |-> 11025], [nfft |-> 256], [win_len |-> D("0.02")], [win_hop |-> D("0.02")], [win_type |-> "blackman"], [butter_filter |-> TRUE, upper_cutoff |-> 1000], [butter_filter |-> TRUE, lower_cutoff |-> 200], SigWith([seed |-> Seed0 + 8] @@ S0), SigWith([g |-> "silence"] @@ S0)>>
    [] fn = "compute_yin" -> <<[fs |-> 11025], [win_len |-> D("0.025")], [win_hop |-> D("0.02")], [low_freq |-> 100], [high_freq |-> 1000], [harmonic_threshold |-> D("0.8")], SigWith([seed |-> Seed0 + 8] @@ S0), SigWith([g |-> "toned", f |-> 200] @@ S0)>>
    [] fn = "framing" -> <<[fs |-> 11025], [win_len |-> D("0.02")], [win_hop |-> D("0.02")]>>
    [] fn = "windowing" -> <<[win_type |-> "hanning"], [win_type |-> "kaiser"]>>
    [] fn = "pre_emphasis" -> <<[pre_emph_coeff |-> D("0.5")], SigWith([n |-> 360] @@ S0)>>
    [] fn = "normalize_ceps" -> <<[normalization_type |-> "ms"], [normalization_type |-> "mn"], [normalization_type |-> "vn"], [x |-> ("$mat" :> [g |-> "noise", shape |-> <<9, 13>>, seed |-> Seed0 + 8])], [x |-> ("$mat" :> [g |-> "noise", shape |-> <<5, 13>>, seed |-> Seed0 + 8])]>>
    [] fn = "lifter_ceps" -> <<[lift |-> 2], [lift |-> -4], [lift |-> -3], [ceps |-> ("$mat" :> [g |-> "noise", shape |-> <<9, 20>>, seed |-> Seed0 + 8])]>>
    [] fn = "deltas" -> <<[w |-> 3], [w |-> 5], [w |-> 8], [x |-> ("$mat" :> [g |-> "noise", shape |-> <<9, 20>>, seed |-> Seed0 + 8])], [x |-> ("$mat" :> [g |-> "ints", shape |-> <<9, 13>>, seed |-> Seed0 + 8])]>>
    [] fn = "rasta_filter" -> <<[x |-> ("$mat" :> [g |-> "noise", shape |-> <<9, 20>>, seed |-> Seed0 + 6])], [x |-> ("$mat" :> [g |-> "noise", shape |-> <<9, 13>>, seed |-> Seed0 + 8])], [x |-> ("$mat" :> [g |-> "const", shape |-> <<9, 13>>, seed |-> Seed0 + 8])]>>

CallAlt(fn, n) == CallOf(fn, IF n = 0 THEN Base(fn) ELSE AltsOf(fn)[n] @@ Base(fn))
\* the same with the signal, matrix or window object shared by all calls of the session
Share(c) == [c EXCEPT !.a = [p \in DOMAIN c.a |-> IF p = Takes(c.fn) /\ AnyEq(c.a[p], Obj(c.fn)) THEN ("$pool" :> Takes(c.fn))
                                                  ELSE IF p = "window" /\ AnyEq(c.a[p], ("$win" :> W0)) THEN ("$pool" :> "window") ELSE c.a[p]]]
Pool(fn) == [window |-> ("$win" :> W0)] @@ (IF Takes(fn) = "none" THEN <<>> ELSE (Takes(fn) :> Obj(fn)))
Hist(fn, calls) == [isolate |-> TRUE, watch |-> TRUE, pool |-> Pool(fn), calls |-> calls]
Poke(obj, how) == [act |-> "poke", obj |-> obj, how |-> how]
PokeOut == [act |-> "pokeout"]

\* ------------- every function, every parameter: A, A with that parameter changed, A
C28Plan == <<"fn", "alt">>
C28Choice(p, c) == CASE p = "fn" -> AllFns [] p = "alt" -> 1..Len(AltsOf(c.fn))
C28Session(c) == LET A == CallAlt(c.fn, 0)  B == CallAlt(c.fn, c.alt) IN
  <<Hist(c.fn, <<A, B, A>>), Hist(c.fn, <<Share(B), Share(A), Share(B)>>)>>
SameOut(fn, o, b) == IF b.ok THEN o.ok /\ NearAny(o.val, b.val, IF fn \in AllFns THEN TolOf(fn) (.) D("0.01") ELSE D("1e-9")) ELSE ~o.ok /\ o.exc = b.exc
PureClauses(s) ==
  << Clause("as in a pristine process", LAMBDA z : \A j \in 1..Len(s.calls) : s.calls[j].fn = "client" \/ SameOut(s.calls[j].fn, s.calls[j].out, s.base[j])),
     Clause("arguments untouched", LAMBDA z : \A j \in 1..Len(s.calls) : s.calls[j].mut = <<>>),
     Clause("earlier results untouched", LAMBDA z : s.stale = <<>> /\ s.poolmut = <<>>) >>
C28Clauses(s, e) == PureClauses(s)

\* ------------- signals and spectra with exact zeros, before and after very quiet ones
ZrSigs == << [g |-> "silence"] @@ S0, [g |-> "gaps", gaps |-> <<<<150, 520>>>>, ops |-> <<<<"gain", D("1e-12")>>>>] @@ S0, [g |-> "gaps", gaps |-> <<<<0, 300>>>>] @@ S0, [g |-> "dc"] @@ S0 >>
ZrMats(fn) == LET sh == IF Takes(fn) = "spectrum" THEN <<64>> ELSE <<9, 13>> IN
  << [g |-> "sparse", shape |-> sh, seed |-> Seed0 + 6], [g |-> "bits", shape |-> sh, seed |-> Seed0 + 7], [g |-> "pos", shape |-> sh, seed |-> Seed0 + 8], [g |-> "ints", shape |-> sh, seed |-> Seed0 + 9] >>
ZrPlan == <<"fn", "i", "j">>
ZrChoice(p, c) == CASE p = "fn" -> {fn \in AllFns \ {"compute_yin"} : Takes(fn) # "none"} [] p = "i" -> 1..4 [] p = "j" -> 1..4 \ {c.i}
ZrSession(c) == LET call(k) == CallOf(c.fn, (Takes(c.fn) :> (IF Takes(c.fn) = "sig" THEN ("$sig" :> ZrSigs[k]) ELSE ("$mat" :> ZrMats(c.fn)[k]))) @@ Base(c.fn)) IN
  IF c.i < c.j THEN <<Hist(c.fn, <<call(c.i), call(c.j), call(c.i)>>)>> ELSE <<Hist(c.fn, <<call(c.i), call(c.j), call(c.i), call(c.j)>>)>>
ZrClauses(s, e) == PureClauses(s)

\* ------------- the client changes its own objects, or overwrites results, between equal calls
PkPlan == <<"fn", "how">>
PkChoice(p, c) == CASE p = "fn" -> AllFns [] p = "how" -> {"out", "outshare"} \cup (IF Takes(c.fn) = "none" THEN {} ELSE {"swap", "scale", "rev", "last"})
                        \cup (IF c.fn \in FrameFns THEN {"win-swap", "win-scale", "win-hop"} ELSE {})
PkSession(c) == LET A == CallAlt(c.fn, 0)  P == Share(A) IN
  CASE c.how = "out" -> <<Hist(c.fn, <<A, PokeOut, A, CallAlt(c.fn, 1), PokeOut, A>>)>>
    [] c.how = "outshare" -> <<Hist(c.fn, <<P, PokeOut, P>>)>>
    [] c.how \in {"swap", "scale", "rev", "last"} -> <<Hist(c.fn, <<P, Poke(Takes(c.fn), c.how), P, P>>)>>
    [] OTHER -> <<Hist(c.fn, <<P, Poke("window", CASE c.how = "win-swap" -> "swap" [] c.how = "win-scale" -> "scale" [] OTHER -> "rev"), P, P>>)>>
PkClauses(s, e) == PureClauses(s)

\* ------------- arbitrary histories mixing functions
RhPlan == <<"f1", "f2", "f3", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9">>
SigFns == {fn \in AllFns : Takes(fn) = "sig"}
RhChoice(p, c) == CASE p \in {"f1", "f2"} -> SigFns [] p = "f3" -> BankCtors \cup FrameFns [] OTHER -> 0..50
RhStep(c, v) == CASE v = 41 -> Poke("sig", "swap") [] v = 42 -> Poke("sig", "scale") [] v \in {43, 44} -> Poke("sig", "last") [] v \in 45..47 -> PokeOut [] v = 48 -> Poke("window", "swap")
                  [] OTHER -> LET f == CASE v % 3 = 0 -> c.f1 [] v % 3 = 1 -> c.f2 [] OTHER -> c.f3 IN Share(CallAlt(f, (v * 7) % (1 + Len(AltsOf(f)))))
RhSession(c) == <<Hist(c.f1, <<RhStep(c, c.s1), RhStep(c, c.s2), RhStep(c, c.s3), RhStep(c, c.s4), RhStep(c, c.s5), RhStep(c, c.s6), RhStep(c, c.s7), RhStep(c, c.s8), RhStep(c, c.s9)>>)>>
RhClauses(s, e) == PureClauses(s)

\* ------------- the same object in another memory layout, handed to two equal calls: read, never written
SigLays == {"strided", "reversed", "fortran", "column0", "float32", "int16", "list", "readonly"}
LyPlan == <<"fn", "lay", "alt">>
Prims == AllFns \ (FrameFns \cup BankCtors \cup Convs)
LyChoice(p, c) == CASE p = "fn" -> {fn \in AllFns : Takes(fn) # "none"} [] p = "lay" -> IF Takes(c.fn) = "sig" THEN SigLays \ {"column0"} ELSE {"fortran", "view", "readonly", "f4"}
                    [] p = "alt" -> {n \in 0..Len(AltsOf(c.fn)) : c.fn \in Prims \/ n \in {0, 1 + ((RunSeed * 31 + Len(c.lay) * 7) % Len(AltsOf(c.fn)))}}
Laid(o, lay) == IF Has(o, "$sig") THEN ("$sig" :> ([as |-> lay, ops |-> <<<<"gain", D("4")>>, <<"round">>>>] @@ o["$sig"])) ELSE ("$mat" :> ([as |-> lay] @@ o["$mat"]))
LySession(c) == LET P == Share(CallAlt(c.fn, c.alt))  Q == CallAlt(c.fn, c.alt)
                    pool == [p \in DOMAIN Pool(c.fn) |-> IF p = Takes(c.fn) THEN Laid(Obj(c.fn), c.lay) ELSE Pool(c.fn)[p]] IN
  <<[watch |-> TRUE, lay |-> c.lay, pool |-> pool, calls |-> <<P, P>>]>>
LyClauses(s, e) ==
  << Clause("returns", LAMBDA z : \A j \in 1..Len(s.calls) : LET k == s.calls[j] IN Ok(s, j) \/ (k.fn \in (FrameFns \cup BankCtors) /\ Rejected(k.fn, Full(k)))),
     Clause("twice the same", LAMBDA z : SameOut(s.calls[1].fn, s.calls[2].out, s.calls[1].out)),
     Clause("arguments untouched", LAMBDA z : \A j \in 1..Len(s.calls) : s.calls[j].mut = <<>>),
     Clause("earlier results untouched", LAMBDA z : s.stale = <<>> /\ s.poolmut = <<>>) >>

\* ------------- several threads
ThPlan == <<"f1", "f2", "a1", "a2", "a3", "a4", "same", "step">>
ThChoice(p, c) == CASE p \in {"f1", "f2"} -> AllFns \cap (FrameFns \cup BankCtors \cup {"extract_feats", "compute_yin", "get_dominant_frequencies"}) [] p \in {"same", "step"} -> BOOLEAN [] OTHER -> 0..40
ThSession(c) == LET g == IF c.same THEN c.f1 ELSE c.f2
                    call(f, n) == Share(CallAlt(f, n % (1 + Len(AltsOf(f)))))
                    A == call(c.f1, c.a1)  B == call(g, c.a2)  C == call(c.f1, c.a3)  E == call(g, c.a4)
                IN <<[threads |-> 4, step |-> c.step] @@ Hist(IF Takes(c.f1) = "sig" THEN c.f1 ELSE g, <<A, B, C, E, B, A, E, C, C, E, A, B, E, C, B, A>>)>>
ThClauses(s, e) == PureClauses(s)
\* ------------- long histories: one parameter takes many values, then all of them again
LhStride == {"1", "2", "3", "4"}
IStep(st) == CASE st = "1" -> 1 [] st = "2" -> 8 [] st = "3" -> 64 [] st = "4" -> 100
FStep(st) == CASE st = "1" -> D("0.0001") [] st = "2" -> D("0.011") [] st = "3" -> D("1") [] st = "4" -> D("10.24")
LhSmall == {"hz2mel", "mel2hz", "hz2bark", "bark2hz", "hz2erb", "erb2hz", "windowing", "lifter_ceps", "deltas"} \cup BankCtors
LhPars(fn) == CASE fn \in Convs -> {"f"} [] fn = "windowing" -> {"len"} [] fn = "lifter_ceps" -> {"lift"} [] fn = "deltas" -> {"w", "rows"} [] fn \in BankCtors -> {"fs", "nfft", "nfilts", "lo", "hi"}
                [] OTHER -> {"fs", "n", "seed", "pc", "wl", "wh"} \cup (IF fn \in BankFns THEN {"nfft", "nfilts", "lo", "hi"} ELSE {}) \cup (IF fn \in CqtFns THEN {"lo", "hi", "nfft", "f0", "thr", "q"} ELSE {})
                            \cup (IF fn \in {"lpc", "lpcc"} \cup PlpCeps THEN {"order"} ELSE {}) \cup (IF fn \in {"msrcc", "psrcc"} THEN {"gamma"} ELSE {})
LhBase(fn) == (CASE fn \in PlpCeps -> [nfilts |-> 28, nfft |-> 64, order |-> 3] [] fn \in (BankFns \cup BankCtors) \ (Spectrograms \cup BankCtors) -> [nfilts |-> 9, nfft |-> 64, num_ceps |-> 3]
                 [] fn \in Spectrograms \cup BankCtors -> [nfilts |-> 9, nfft |-> 64] [] fn \in CqtFns -> [number_of_octaves |-> 2, number_of_bins_per_octave |-> 3, f0 |-> 400] [] OTHER -> <<>>)
              @@ (IF Takes(fn) = "sig" THEN SigWith([n |-> 360] @@ S0) ELSE <<>>) @@ Base(fn)
LhMat(r, n) == ("$mat" :> [g |-> "noise", shape |-> <<r, n>>, seed |-> Seed0 + 6])
LhArg(fn, par, st, k) == LET i == k * IStep(st)  x == F(k) (.) FStep(st) IN
  CASE par = "fs" -> [fs |-> 8000 + i] [] par = "n" -> SigWith([n |-> 360 + (i % 1000)] @@ S0) [] par = "seed" -> SigWith([seed |-> Seed0 + i, n |-> 360] @@ S0)
    [] par = "pc" -> [pre_emph_coeff |-> IF st \in {"1", "2"} THEN D("0.5") (+) x ELSE D("0.9") (-) (F(k) (.) D("0.0301"))]
    [] par = "wl" -> WinAlt([win_len |-> D("0.02") (+) (F(k) (.) (CASE st = "1" -> D("0.00013") [] st = "2" -> D("0.0005") [] OTHER -> D("0.00083")))])
    [] par = "wh" -> WinAlt([win_hop |-> D("0.005") (+) (F(k) (.) (CASE st = "1" -> D("0.00013") [] st = "2" -> D("0.0005") [] OTHER -> D("0.00083")))])
    [] par = "nfft" -> [nfft |-> 64 + (i % 1500)] [] par = "nfilts" -> [nfilts |-> 3 + (i % 23)]
    [] par = "lo" -> [low_freq |-> IF fn \in CqtFns THEN F(410) (+) x ELSE F(50) (+) x] [] par = "hi" -> [high_freq |-> F(3900) (-) x]
    [] par = "f0" -> [f0 |-> F(300) (+) x] [] par = "thr" -> [spectral_threshold |-> D("0.005") (+) (F(k) (.) (IF st \in {"1", "2"} THEN D("0.0001") ELSE D("0.0009")))]
    [] par = "q" -> [q_rate |-> D("0.7") (+) (F(k) (.) (IF st \in {"1", "2"} THEN D("0.0003") ELSE D("0.009")))]
    [] par = "order" -> [order |-> 2 + (k % 25)] [] par = "gamma" -> [gamma |-> D("-0.1") (-) (F(k) (.) (IF st \in {"1", "2"} THEN D("0.0007") ELSE D("0.02")))]
    [] par = "f" -> (CASE fn \in {"hz2mel", "hz2bark", "hz2erb"} -> [f |-> F(1000) (+) x] [] fn = "mel2hz" -> [fm |-> F(500) (+) x] [] fn = "bark2hz" -> [fb |-> F(1) (+) (x (.) D("0.05"))] [] OTHER -> [fe |-> F(1) (+) (x (.) D("0.05"))])
    [] par = "len" -> [frame_len |-> 2 + i, frames |-> LhMat(1, 2 + i), win_type |-> "hanning"]
    [] par = "lift" -> [lift |-> k - 12] [] par = "w" -> [w |-> 3 + 2 * (k % 14)] [] par = "rows" -> [x |-> LhMat(3 + (k % 9), 4 + (i % 60))]
LhCount == 26
LhHist(fn, par, st) == <<[isolate |-> TRUE, watch |-> TRUE, pool |-> Pool(fn), calls |-> [j \in 1..(2 * LhCount) |-> CallOf(fn, LhArg(fn, par, st, (j - 1) % LhCount) @@ LhBase(fn))]]>>
LcPlan == <<"fn", "par", "st">>
LcChoice(p, c) == CASE p = "fn" -> LhSmall [] p = "par" -> LhPars(c.fn) [] p = "st" -> LhStride
LcSession(c) == LhHist(c.fn, c.par, c.st)
LcClauses(s, e) == PureClauses(s)
LhPlan == LcPlan
LhChoice(p, c) == IF p = "fn" THEN FrameFns \cup {"framing", "pre_emphasis"} ELSE IF p = "par" THEN (CASE c.fn = "framing" -> {"fs", "n", "seed"} [] c.fn = "pre_emphasis" -> {"n", "seed", "pc"} [] OTHER -> LhPars(c.fn)) ELSE LcChoice(p, c)
LhSession(c) == LhHist(c.fn, c.par, c.st)
LhClauses(s, e) == PureClauses(s)
===================================================================================
