----------------------------------- MODULE C33 -----------------------------------
(* Representations of the same samples.                                            *)
EXTENDS Scen
Unsigned == {"uint16", "uint32", "uint8"}
Reps == {"float32", "int16", "int32", "int64", "list", "intlist", "strided", "reversed", "fortran", "column", "readonly", "bigendian", "colview"}
Trackers == {"get_dominant_frequencies", "compute_yin", "extract_feats"}
C33Plan == <<"fn">> \o AnyPlan \o <<"rep", "ue", "norm">>
C33Choice(p, c) ==
  CASE p = "fn" -> FrameFns
    [] p = "g" -> {"ints", "fullscale", "gaps16", "wide", "bytes"} [] p = "amp" -> {D("1")}
    [] p = "nf" /\ c.win = Tiny -> {130}
    [] p = "rep" -> IF c.g = "wide" THEN Reps \ {"float32", "int16"} ELSE IF c.g = "bytes" THEN Unsigned \cup {"int8"} ELSE Reps
    [] p = "ue" -> IF c.fn \in BankCeps THEN {"dflt", "on"} ELSE {"dflt"}
    [] p = "norm" -> {"none", "ms"}
    [] OTHER -> AnyChoice(p, c)
C33Sig(c, rep) == [n |-> SigLen(c), seed |-> Seed0 + c.seed, fs |-> c.fs, as |-> rep] @@
  (CASE c.g = "gaps16" -> [g |-> "gaps", gaps |-> <<<<HopOf(c), 2 * HopOf(c) + LenOf(c) + 3>>>>, amp |-> D("5000"), ops |-> <<<<"round">>>>] [] OTHER -> [g |-> c.g])
C33Session(c) ==
  LET cep == c.fn \in (BankCeps \cup PlpCeps \cup {"pncc", "lpcc", "cqcc"})
      a == Opt(c.ue = "on", [use_energy |-> TRUE]) @@ BArgs(Drop(With(Trim(c), [g |-> "ints"]), {"ue"} \cup (IF cep THEN {} ELSE {"norm"})))
  IN IF Fragile(CallOf(c.fn, a)) THEN <<>>
     ELSE <<[rep |-> c.rep, calls |-> <<CallOf(c.fn, SigWith(C33Sig(c, "float64")) @@ a), CallOf(c.fn, SigWith(C33Sig(c, c.rep)) @@ a)>>]>>
RepTol(fn, rep) == IF rep = "float32" THEN FMax(D("1e-5"), TolOf(fn)) ELSE TolOf(fn)
C33Clauses(s, e) == LET fn == s.calls[1].fn IN
  << Clause("premise", LAMBDA z : SameBits(Flatten(s.calls[2].a.sig), s.calls[1].a.sig)),
     Clause(s.rep \o ":" \o fn, LAMBDA z : SameVal(Val(s, 2), Val(s, 1), RepTol(fn, s.rep))),
     Clause("untouched", LAMBDA z : s.calls[2].mut = <<>>), Returned(s) >>

RtPlan == <<"fn", "g", "rep", "fs", "seed", "bf", "win", "nf", "rem">>
RtChoice(p, c) == CASE p = "fn" -> Trackers [] p = "rep" -> (IF c.fn = "get_dominant_frequencies" THEN Reps ELSE Reps \ {"column"}) \ (IF c.g = "wide" THEN {"float32", "int16"} ELSE {}) [] p = "fs" -> {8000, 16000, 44100} [] p = "g" -> {"ints", "fullscale", "wide"}
                    [] p = "bf" -> BOOLEAN [] p = "win" -> {<<D("0.03"), D("0.01")>>} [] p = "nf" -> {2, 3, 9} [] OTHER -> StdChoice(p, c)
RtSession(c) == LET a == [fs |-> c.fs] @@ Opt(c.fn = "get_dominant_frequencies" /\ c.bf, [butter_filter |-> TRUE]) IN
  <<[rep |-> c.rep, calls |-> <<CallOf(c.fn, SigWith(C33Sig(c, "float64")) @@ a), CallOf(c.fn, SigWith(C33Sig(c, c.rep)) @@ a)>>]>>
\* In single precision the skewness is known to within the rounding of the terms that cancel in it, not of what is left of them.
SingleFeatsOk(u, v) ==
  /\ DOMAIN u = DOMAIN v /\ \A k \in (DOMAIN v) \ {"spectral_skewness"} : NearAny(u[k], v[k], D("1e-4"))
  /\ CloseE(u.spectral_skewness, v.spectral_skewness, D("1e-4"), D("1e-6") (.) FPow(v.spectral_kurtosis, D("0.75")))
RtClauses(s, e) == LET fn == s.calls[1].fn IN
  << Clause("premise", LAMBDA z : SameBits(Flatten(s.calls[2].a.sig), s.calls[1].a.sig)),
     Clause(s.rep \o ":" \o fn, LAMBDA z : IF fn = "extract_feats" /\ s.rep = "float32" THEN SingleFeatsOk(Val(s, 2), Val(s, 1)) ELSE NearAny(Val(s, 2), Val(s, 1), IF s.rep = "float32" THEN D("1e-4") ELSE D("1e-8"))),
     Clause("untouched", LAMBDA z : s.calls[2].mut = <<>>), Returned(s) >>
===================================================================================
