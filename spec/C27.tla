----------------------------------- MODULE C27 -----------------------------------
(* Spectral descriptors.                                                           *)
EXTENDS Scen
C27Plan == <<"fn", "n", "g", "cx", "fs", "opt", "mul", "seed">>
DescFns == {"spectral_centroid", "spectral_skewness", "spectral_kurtosis", "spectral_entropy", "spectral_spread", "spectral_flatness", "spectral_rolloff", "spectral_flux"}
C27Choice(p, c) ==
  CASE p = "fn" -> DescFns
    [] p = "n" -> {2, 3, 5, 16, 31, 64, 257, 512, 1000}
    [] p = "g" -> {"noise", "pos", "power", "const"} \cup (IF c.fn = "spectral_flatness" \/ c.n < 64 THEN {} ELSE {"sparse", "ints"})
    [] p = "cx" -> {"real", "complex"}
    [] p = "opt" -> CASE c.fn = "spectral_centroid" -> {"dflt", "1", "2", "3", "4", "5"} [] c.fn = "spectral_rolloff" -> {"dflt", "0.85", "0.5", "0.1", "1", "0.99", "0"}
                      [] c.fn = "spectral_flux" -> {"dflt", "1", "2", "3", "4", "6", "8", "9", "12"} [] OTHER -> {"dflt"}
    [] p = "mul" -> {"1", "1b", "1e-9", "1e-4", "300", "1e7"}
    [] p = "seed" -> 1..500
    [] OTHER -> StdChoice(p, c)
OptName(fn) == CASE fn = "spectral_centroid" -> "i" [] fn = "spectral_rolloff" -> "k" [] fn = "spectral_flux" -> "p" [] OTHER -> "none"
C27Session(c) ==
  LET sp == ("$mat" :> ([g |-> c.g, shape |-> <<c.n>>, seed |-> Seed0 + c.seed] @@ Opt(c.mul # "1b", [mul |-> D(c.mul)]) @@ Opt(c.cx = "complex", [complex |-> TRUE])))
      o == IF c.opt = "dflt" THEN <<>> ELSE IF c.fn = "spectral_rolloff" THEN [k |-> D(c.opt)] ELSE (OptName(c.fn) :> Floor(D(c.opt)))
  IN <<[calls |-> <<CallOf(c.fn, [spectrum |-> sp] @@ Opt(c.fn \in {"spectral_centroid", "spectral_skewness", "spectral_kurtosis", "spectral_spread"}, [fs |-> c.fs])
        @@ Opt(c.fn \in {"spectral_skewness", "spectral_kurtosis", "spectral_spread"}, [sig |-> ("$sig" :> [g |-> "noise", n |-> 100])]) @@ o)>>]>>
Mag(x) == IF IsRec(x) THEN Sqrt((x.re (.) x.re) (+) (x.im (.) x.im)) ELSE FAbs(x)
NearTo(v, w) == CloseE(v, w, D("1e-8"), D("1e-300"))
\* A central moment is a difference of large terms: its rounding is relative to the sum of their absolute values.
NearSum(v, w, mag) == FAbs(v (-) w) \preceq ((D("1e-8") (.) FAbs(w)) (+) (D("1e-12") (.) mag))
AbsCentral(a, f, i) == Sum(a (.) FPow(FAbs(f (-) Moment(a, f, 1)), F(i))) (/) Sum(a)
IsWhole(v) == FEq(v, FFloor(v))
DescOk(k) ==
  LET a == k.a @@ [i |-> 1, k |-> D("0.85"), p |-> 2]  m == Mag(a.spectrum)  v == k.out.val  f == AbsFftFreqs(N(m), a.fs) IN
  /\ k.out.ok
  /\ CASE k.fn = "spectral_centroid" -> NearTo(v, Centroid(m, a.fs, a.i))
       [] k.fn = "spectral_skewness" -> NearSum(v, Skewness(m, a.fs), AbsCentral(m, f, 3) (/) FPow(Moment(m, f, 2), F(3)))
       [] k.fn = "spectral_kurtosis" -> NearTo(v, Kurtosis(m, a.fs))
       [] k.fn = "spectral_spread"   -> NearTo(v, Spread(m, a.fs))
       [] k.fn = "spectral_entropy"  -> CloseE(v, Entropy(m), D("1e-8"), D("1e-12"))
       [] k.fn = "spectral_flatness" -> NearTo(v, Flatness(m))
       [] k.fn = "spectral_rolloff"  -> IsWhole(v) /\ RolloffOk(Floor(v), m, F(a.k))
       [] k.fn = "spectral_flux"     -> CloseE(v, Flux(m, a.p), D("1e-8"), D("1e-12") (.) MaxAbs(m))
C27Clauses(s, e) == <<Clause(s.calls[1].fn, LAMBDA z : DescOk(s.calls[1]))>>

\* everything at once, from a signal
ExPlan == <<"fs", "n", "nfft", "g", "amp", "seed">>
ExChoice(p, c) == CASE p = "n" -> {40, 400, 512, 700, 3000} [] p = "nfft" -> {0, 64, 100, 256, 511, 512, 1024} [] p = "g" -> {"noise", "ints", "toned", "uniform"} [] OTHER -> StdChoice(p, c)
ExSession(c) == <<[calls |-> <<CallOf("extract_feats", SigWith([g |-> c.g, n |-> c.n, seed |-> Seed0 + c.seed, fs |-> c.fs, f |-> D("0.07") (.) F(c.fs), amp |-> c.amp]) @@ [fs |-> c.fs] @@ Int0("nfft", c.nfft))>>]>>
CNear(u, re, im, tol) == LET ur == IF IsRec(u) THEN u.re ELSE u  ui == IF IsRec(u) THEN u.im ELSE F(0) IN FAbs(ur (-) re) \preceq tol /\ FAbs(ui (-) im) \preceq tol
FeatsOk(k) ==
  LET a == k.a @@ [nfft |-> 512]  v == k.out.val  X == Dft(a.sig, a.nfft)  full == Modulus(X)
      h == HalfSpec(a.sig, a.nfft)  m == Modulus(h)  n == F(N(m))
      mr == Sum(h[1]) (/) n  mi == Sum(h[2]) (/) n
      sr == (Sum(h[1] (.) h[1]) (-) Sum(h[2] (.) h[2])) (/) n  si == (F(2) (.) Dot(h[1], h[2])) (/) n
      var == Sum(((h[1] (-) mr) (.) (h[1] (-) mr)) (+) ((h[2] (-) mi) (.) (h[2] (-) mi))) (/) n
      r == v.spectral_rms  rr == IF IsRec(r) THEN r.re ELSE r  ri == IF IsRec(r) THEN r.im ELSE F(0)
      f == AbsFftFreqs(a.nfft, a.fs)  E == Mean(m (.) m)
  IN << Clause("spectral_centroid", LAMBDA z : NearTo(v.spectral_centroid, Centroid(full, a.fs, 1))),
        Clause("spectral_spread", LAMBDA z : NearTo(v.spectral_spread, Spread(full, a.fs))),
        Clause("spectral_skewness", LAMBDA z : NearSum(v.spectral_skewness, Skewness(full, a.fs), AbsCentral(full, f, 3) (/) FPow(Moment(full, f, 2), F(3)))),
        Clause("spectral_kurtosis", LAMBDA z : NearTo(v.spectral_kurtosis, Kurtosis(full, a.fs))),
        Clause("spectral_entropy", LAMBDA z : CloseE(v.spectral_entropy, Entropy(m), D("1e-8"), D("1e-12"))),
        Clause("spectral_flatness", LAMBDA z : NearTo(v.spectral_flatness, Flatness(m))),
        Clause("spectral_rolloff", LAMBDA z : RolloffOk(Floor(v.spectral_rolloff), m, D("0.85"))),
        Clause("spectral_flux", LAMBDA z : NearTo(v.spectral_flux, Flux(m, 2))),
        Clause("spectral_mean", LAMBDA z : CNear(v.spectral_mean, mr, mi, D("1e-9") (.) Sqrt(E))),
        Clause("spectral_rms", LAMBDA z : D("-1e-9") (.) Sqrt(E) \preceq rr /\ FAbs(((rr (.) rr) (-) (ri (.) ri)) (-) sr) \preceq (D("1e-8") (.) E) /\ FAbs((F(2) (.) rr (.) ri) (-) si) \preceq (D("1e-8") (.) E)),
        Clause("spectral_std", LAMBDA z : NearTo(v.spectral_std, Sqrt(var))),
        Clause("spectral_variance", LAMBDA z : NearTo(v.spectral_variance, var)) >>
ExClauses(s, e) == IF ~Ok(s, 1) THEN <<Returned(s)>> ELSE FeatsOk(s.calls[1])
===================================================================================
