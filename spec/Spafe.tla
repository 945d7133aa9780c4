---------------------------------- MODULE Spafe ----------------------------------
(* The feature extractors as a state machine.                                     *)
(*                                                                                *)
(* A call is a record [fn, a]: the entry point and the arguments the caller gave. *)
(* The machine validates the call, then takes it through the stages of its entry  *)
(* point's route, one transition per stage; `d` holds what has been computed so   *)
(* far (d.x is the running value) and at the end d.out is the specified result,   *)
(* or d.exc names the exception.                                                  *)
EXTENDS Fbanks, Cepstra, Lp, PnccStages, Cqt, Yin, Descriptors, TLC

\* ------------------------------------------------------------------ entry points
Spectrograms == {"mel_spectrogram", "linear_spectrogram", "bark_spectrogram", "erb_spectrogram"}
LogCeps  == {"mfcc", "imfcc", "lfcc", "ngcc", "bfcc"}
RootCeps == {"gfcc", "msrcc", "psrcc"}
BankCeps == LogCeps \cup RootCeps                      \* have use_energy
PlpCeps  == {"plp", "rplp"}
CqtFns   == {"cqt_spectrogram", "cqcc"}
BankFns  == Spectrograms \cup BankCeps \cup {"pncc"} \cup PlpCeps     \* use a filter bank
FrameFns == BankFns \cup {"lpc", "lpcc"} \cup CqtFns
BankCtors == {"mel_filter_banks", "inverse_mel_filter_banks", "linear_filter_banks", "bark_filter_banks", "gammatone_filter_banks"}

BankOf(fn) == CASE fn \in {"mel_spectrogram", "mfcc", "msrcc", "psrcc", "mel_filter_banks"} -> "mel"
                [] fn \in {"imfcc", "inverse_mel_filter_banks"} -> "imel"
                [] fn \in {"linear_spectrogram", "lfcc", "linear_filter_banks"} -> "lin"
                [] fn \in {"bark_spectrogram", "bfcc", "plp", "rplp", "bark_filter_banks"} -> "bark"
                [] fn \in {"erb_spectrogram", "gfcc", "ngcc", "pncc", "gammatone_filter_banks"} -> "gamma"
CtorOf(kind) == CASE kind = "mel" -> "mel_filter_banks" [] kind = "imel" -> "inverse_mel_filter_banks" [] kind = "lin" -> "linear_filter_banks"
                  [] kind = "bark" -> "bark_filter_banks" [] kind = "gamma" -> "gammatone_filter_banks"
ScaleOf(kind) == CASE kind \in {"mel", "imel"} -> "mel" [] kind = "bark" -> "bark" [] kind = "gamma" -> "erb" [] kind = "lin" -> "none"
DefaultAp(kind) == IF kind = "lin" THEN "none" ELSE DefaultApproach[ScaleOf(kind)]

Has(r, f) == f \in DOMAIN r
\* ------------------------------------------------------------------ documented defaults
BankDefaults(fn) ==
  [nfilts |-> IF fn \in {"bfcc", "psrcc"} THEN 26 ELSE 24, nfft |-> 512, fs |-> 16000, low_freq |-> 0,
   scale |-> "constant", conversion_approach |-> DefaultAp(BankOf(fn))]
SigDefaults == [fs |-> 16000, pre_emph |-> TRUE, pre_emph_coeff |-> D("0.97"), window |-> DefaultWindow]
Defaults(fn) ==
  CASE fn \in BankCtors    -> BankDefaults(fn)
    [] fn \in Spectrograms -> (IF fn = "bark_spectrogram" THEN [pre_emph |-> FALSE] ELSE <<>>) @@ SigDefaults @@ BankDefaults(fn)
    [] fn \in BankCeps     -> [num_ceps |-> 13, dct_type |-> 2, use_energy |-> FALSE, lifter |-> 0,
                               gamma |-> F(-1) (/) F(7)] @@ SigDefaults @@ BankDefaults(fn)
    [] fn = "pncc"         -> [num_ceps |-> 13, dct_type |-> 2, lifter |-> 0, power |-> 2] @@ SigDefaults @@ BankDefaults(fn)
    [] fn \in PlpCeps      -> [order |-> 13, lifter |-> 0, pre_emph |-> FALSE] @@ SigDefaults @@ BankDefaults(fn)
    [] fn = "lpc"          -> [order |-> 13] @@ SigDefaults
    [] fn = "lpcc"         -> [order |-> 13, lifter |-> 0] @@ SigDefaults
    [] fn \in CqtFns       -> [num_ceps |-> 13, nfft |-> 512, low_freq |-> 0, dct_type |-> 2, lifter |-> 0, number_of_octaves |-> 7,
                               number_of_bins_per_octave |-> 24, resampling_ratio |-> 1, spectral_threshold |-> D("0.005"),
                               f0 |-> 120, q_rate |-> 1] @@ SigDefaults
\* a window object may leave fields at their defaults
GivenArgs(a) == [x \in {y \in DOMAIN a : ~(IsRec(a[y]) /\ Has(a[y], "$none"))} |-> a[x]]         \* an option given as None is left out
Full(c) == LET a == GivenArgs(c.a) IN (IF Has(a, "window") THEN [window |-> a.window @@ DefaultWindow] ELSE <<>>) @@ a @@ Defaults(c.fn)

\* ------------------------------------------------------------------ parameters of a call
HighFreq(a) == IF Has(a, "high_freq") /\ ~FEq(a.high_freq, F(0)) THEN F(a.high_freq) ELSE F(a.fs) (/) F(2)
BankParams(a) == [nfilts |-> a.nfilts, nfft |-> a.nfft, fs |-> a.fs, low |-> F(a.low_freq), high |-> HighFreq(a), ap |-> a.conversion_approach]
                 @@ (IF Has(a, "order") THEN [order |-> a.order] ELSE <<>>)
SpecBank(fn, a) == Bank(BankOf(fn), [BankParams(a) EXCEPT !.nfilts = a.nfilts], a.scale)
NumCeps(fn, a) == IF fn \in PlpCeps THEN a.order ELSE a.num_ceps
CqtParams(a) == [fs |-> a.fs, low |-> F(a.low_freq), high |-> HighFreq(a), nfft |-> a.nfft, octaves |-> a.number_of_octaves,
                 bins |-> a.number_of_bins_per_octave, win_type |-> a.window.win_type, thr |-> F(a.spectral_threshold),
                 f0 |-> F(a.f0), q |-> F(a.q_rate)]
WinLen(a) == FrameLen(F(a.window.win_len), F(a.fs))
WinHop(a) == FrameLen(F(a.window.win_hop), F(a.fs))

\* the documented rejections
OwnBank(fn, a) == fn \in BankCtors \/ (fn \in BankFns /\ ~Has(a, "fbanks"))
Rejected(fn, a) ==
  \/ OwnBank(fn, a) /\ (F(a.low_freq) \prec F(0) \/ (F(a.fs) (/) F(2)) \prec HighFreq(a))
  \/ fn \in CqtFns /\ (F(a.fs) (/) F(2)) \prec HighFreq(a)
  \/ fn \in (BankCeps \cup PlpCeps \cup {"pncc"}) /\ a.nfilts < NumCeps(fn, a)
  \/ fn \in FrameFns /\ F(a.window.win_len) \prec F(a.window.win_hop)

\* ------------------------------------------------------------------ routes
Head4 == <<"validate", "preemph", "frame", "taper">>
Tail3 == <<"energy", "lifter", "normalize">>
Route(fn) ==
  CASE fn \in BankCtors    -> <<"validate", "build">>
    [] fn \in Spectrograms -> Head4 \o <<"magnitude", "power", "bank", "pair">>
    [] fn \in (LogCeps \ {"bfcc"}) -> Head4 \o <<"magnitude", "power", "bank", "log", "dct">> \o Tail3
    [] fn = "bfcc"  -> Head4 \o <<"magnitude", "power", "bank", "loudness", "log", "dct">> \o Tail3
    [] fn = "gfcc"  -> Head4 \o <<"magnitude", "power", "bank", "cuberoot", "dct">> \o Tail3
    [] fn = "msrcc" -> Head4 \o <<"magnitude", "power", "bank", "gamma", "dct">> \o Tail3
    [] fn = "psrcc" -> Head4 \o <<"magnitude", "power", "phase", "bank", "gamma", "dct">> \o Tail3
    [] fn = "pncc"  -> Head4 \o <<"magnitude", "anypower", "bank", "medium", "envelope", "rectify", "floor", "mask", "switch",
                                  "smooth", "weight", "meanpower", "root15", "dct", "lifter", "normalize">>
    [] fn = "lpc"   -> Head4 \o <<"predict", "lpcout">>
    [] fn = "lpcc"  -> Head4 \o <<"predict", "lpcepstrum", "lifter", "normalize">>
    [] fn = "plp"   -> Head4 \o <<"magnitude", "power", "bank", "loudness", "inverse", "predict", "lpcepstrum", "lifter", "normalize">>
    [] fn = "rplp"  -> Head4 \o <<"magnitude", "power", "bank", "rasta", "loudness", "inverse", "predict", "lpcepstrum", "lifter", "normalize">>
    [] fn = "cqt_spectrogram" -> Head4 \o <<"cqt", "cqtout">>
    [] fn = "cqcc"  -> Head4 \o <<"cqt", "logpower", "resample", "dct", "lifter", "normalize">>

\* ------------------------------------------------------------------ what a stage does
Fit(s, n) == IF N(s) <= n THEN Cat(s, Const(n - N(s), F(0))) ELSE Cut(s, 0, n)       \* cut or zero-padded to n points
Set(d, v) == [x |-> v] @@ d
Stage(st, fn, a, d) ==
  CASE st = "validate"  -> IF Rejected(fn, a) THEN [exc |-> "ParameterError"] @@ d ELSE d
    [] st = "build"     -> [out |-> <<Bank(BankOf(fn), BankParams(a), a.scale), Centers(BankOf(fn), BankParams(a))>>] @@ d
    [] st = "preemph"   -> IF a.pre_emph THEN Set(d, PreEmph(d.x, F(a.pre_emph_coeff))) ELSE d
    [] st = "frame"     -> Set(d, Frames(d.x, WinLen(a), WinHop(a)))
    [] st = "taper"     -> Set(d, Tapered(d.x, a.window.win_type, WinLen(a)))
    [] st = "magnitude" -> [mag |-> Map(d.x, LAMBDA f : Magnitudes(f, a.nfft)), fr |-> d.x] @@ d
    [] st = "power"     -> Set(d, Power(d.mag, a.nfft))
    [] st = "anypower"  -> Set(d, FPow(d.mag, F(a.power)) (/) F(a.nfft))
    [] st = "phase"     -> Set(d, Map(d.fr, LAMBDA f : Phases(f, a.nfft)))
    [] st = "bank"      -> Set(d, MulT(d.x, IF Has(a, "fbanks") THEN a.fbanks ELSE SpecBank(fn, a)))
    [] st = "pair"      -> [out |-> <<d.x, d.mag>>] @@ d
    [] st = "loudness"  -> Set(d, IntensityPower(d.x))
    [] st = "log"       -> Set(d, Ln(ZeroToEps(d.x)))
    [] st = "cuberoot"  -> Set(d, FPow(d.x, F(1) (/) F(3)))
    [] st = "gamma"     -> Set(d, FPow(ZeroToEps(d.x), F(a.gamma)))
    [] st = "dct"       -> Set(d, CepstrumOf(d.x, a.dct_type, a.num_ceps))
    [] st = "energy"    -> IF a.use_energy
                           THEN Set(d, Map2(d.x, d.mag, LAMBDA c, m : Cat(<<Ln(ZeroToEps(Sum(Power(m, a.nfft))))>>, Cut(c, 1, N(c) - 1))))
                           ELSE d
    [] st = "lifter"    -> Set(d, Lifter(d.x, a.lifter))
    [] st = "normalize" -> [out |-> IF Has(a, "normalize") THEN Normalize(d.x, a.normalize) ELSE d.x] @@ d
    \* PNCC
    [] st = "medium"    -> [P |-> d.x, Q |-> MediumTime(d.x)] @@ d
    [] st = "envelope"  -> [le |-> Lowpass(d.Q)] @@ d
    [] st = "rectify"   -> [Q0 |-> HalfWave(d.Q (-) d.le)] @@ d
    [] st = "floor"     -> [fl |-> Lowpass(d.Q0)] @@ d
    [] st = "mask"      -> [tm |-> Masking(d.Q0)] @@ d
    [] st = "switch"    -> [R |-> Switch(d.Q, d.le, d.tm, d.fl)] @@ d
    [] st = "smooth"    -> [S |-> Smooth(d.R, d.Q)] @@ d
    [] st = "weight"    -> Set(d, d.P (.) d.S)
    [] st = "meanpower" -> Set(d, MeanPowerNorm(d.x))
    [] st = "root15"    -> Set(d, FPow(d.x, F(1) (/) F(15)))
    \* linear prediction
    [] st = "predict"   -> [lp |-> Map(d.x, LAMBDA f : Lpc(f, a.order))] @@ d
    [] st = "lpcout"    -> [out |-> <<Map(d.lp, LAMBDA m : m.a), Map(d.lp, LAMBDA m : <<m.e>>)>>] @@ d
    [] st = "lpcepstrum" -> Set(d, Map(d.lp, LAMBDA m : LpCepstrum(m.a, m.e, a.order)))
    [] st = "rasta"     -> Set(d, Exp(Transpose(Rasta(Transpose(Ln(ZeroToEps(d.x)))))))
    [] st = "inverse"   -> Set(d, Map(d.x, LAMBDA r : Modulus(IDft(Fit(r, a.nfft), Const(a.nfft, F(0)), a.nfft))))
    \* constant Q
    [] st = "cqt"       -> [fr |-> d.x] @@ Set(d, CqtOf(d.x, CqtParams(a)))
    [] st = "cqtout"    -> [out |-> d.x] @@ d
    [] st = "logpower"  -> Set(d, Transpose(Ln(ZeroToEps((d.x[1] (.) d.x[1]) (+) (d.x[2] (.) d.x[2])))))
    [] st = "resample"  -> LET n == Trunc(F(N(d.x)) (.) F(a.resampling_ratio)) IN
                           IF n = N(d.x) THEN d ELSE Set(d, Transpose(Map(Transpose(d.x), LAMBDA c : Resample(c, n))))

Start(c) == IF Has(c.a, "sig") THEN [x |-> c.a.sig] ELSE [x |-> <<>>]
Stages == {"validate", "build", "preemph", "frame", "taper", "magnitude", "power", "anypower", "phase", "bank", "pair", "loudness",
           "log", "cuberoot", "gamma", "dct", "energy", "lifter", "normalize", "medium", "envelope", "rectify", "floor", "mask",
           "switch", "smooth", "weight", "meanpower", "root15", "predict", "lpcout", "lpcepstrum", "rasta", "inverse", "cqt",
           "cqtout", "logpower", "resample"}
==================================================================================
