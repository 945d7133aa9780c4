----------------------------------- MODULE C18 -----------------------------------
(* PNCC: the whole chain, and its published stages one by one.                     *)
EXTENDS Scen
C18Plan == <<"fn">> \o FramePlan \o BankPlan \o CepPlan \o PrePlan \o <<"power">>
C18Choice(p, c) == IF p = "fn" THEN {"pncc"} ELSE IF p = "nfilts" THEN {0, 1, 2, 5, 9, 13, 20, 40} ELSE StdChoice(p, c)
C18Session(c) == LET k == Model(CallOf(c.fn, BArgs(c))) IN <<[calls |-> <<k>>]>>
C18Clauses(s, e) == AllConform(s, e)

\* ---- the stages, on matrices of powers with silent entries and level jumps
StPlan == <<"rows", "cols", "g", "seed", "opt">>
StChoice(p, c) == CASE p = "rows" -> {1, 2, 3, 4, 6, 17, 120, 1500} [] p = "cols" -> IF c.rows = 1500 THEN {1, 2, 5} ELSE {1, 2, 5, 9, 10, 24} [] p = "g" -> {"power", "sparse", "pos", "const"}
                    [] p = "seed" -> 1..200 [] p = "opt" -> {"none", "none2", "o1", "o2"}
\* the constants of the stages are options of theirs
StOpt(c, fn) == IF c.opt \in {"none", "none2"} THEN <<>> ELSE LET o == c.opt = "o1" IN
  CASE fn = "medium_time_power_calculation" -> [M |-> IF o THEN 1 ELSE 4] [] fn = "asymmetric_lowpass_filtering" -> IF o THEN [lm_a |-> D("0.9"), lm_b |-> D("0.3")] ELSE [lm_b |-> D("0.95")]
    [] fn = "temporal_masking" -> IF o THEN [lam_t |-> D("0.7"), myu_t |-> D("0.4")] ELSE [myu_t |-> D("0.1")] [] fn = "weight_smoothing" -> [N |-> IF o THEN 1 ELSE 6]
    [] fn = "mean_power_normalization" -> IF o THEN [lam_myu |-> D("0.9"), k |-> 3] ELSE [k |-> 2] [] OTHER -> IF o THEN [threshold |-> D("0.05")] ELSE <<>>
M2(c, k, g) == [g |-> g, shape |-> <<c.rows, c.cols>>, seed |-> Seed0 + c.seed + k * 1000000]
StSession(c) ==
  LET m == ("$mat" :> M2(c, 0, c.g))  r == ("$mat" :> M2(c, 1, "sparse"))
      one(fn, a) == [calls |-> <<CallOf(fn, StOpt(c, fn) @@ a)>>]
  IN << one("medium_time_power_calculation", [P |-> m]), one("asymmetric_lowpass_filtering", [Q_tilde_in |-> m]),
        one("temporal_masking", [Q_tilde_0 |-> m]), one("asymmetric_noise_suppression_with_temporal_masking", [Q_tilde |-> m]),
        one("weight_smoothing", [R_tilde |-> r, Q_tilde |-> m, nfilts |-> c.cols]), one("mean_power_normalization", [T |-> m, nfilts |-> c.cols]) >>
Above(M, thr) == Map(M, LAMBDA r : Map(r, LAMBDA v : IF v \prec thr THEN F(0) ELSE v))
Suppress(Q, thr) == LET le == Lowpass(Q)  Q0 == Above(Q (-) le, thr) IN Switch(Q, le, Masking(Q0), Lowpass(Q0))
StSpec(c) == LET a == c.a @@ [M |-> 2, lm_a |-> D("0.999"), lm_b |-> D("0.5"), lam_t |-> D("0.85"), myu_t |-> D("0.2"), N |-> 4, lam_myu |-> D("0.999"), k |-> 1, threshold |-> 0] IN
             CASE c.fn = "medium_time_power_calculation" -> MediumTimeM(a.P, a.M)
               [] c.fn = "asymmetric_lowpass_filtering" -> LowpassAB(a.Q_tilde_in, F(a.lm_a), F(a.lm_b))
               [] c.fn = "temporal_masking" -> MaskingLM(a.Q_tilde_0, F(a.lam_t), F(a.myu_t))
               [] c.fn = "asymmetric_noise_suppression_with_temporal_masking" -> Suppress(a.Q_tilde, F(a.threshold))
               [] c.fn = "weight_smoothing" -> SmoothK(a.R_tilde, a.Q_tilde, a.N)
               [] c.fn = "mean_power_normalization" -> MeanPowerNormK(a.T, F(a.lam_myu), F(a.k))
StClauses(s, e) == <<Clause(s.calls[1].fn, LAMBDA z : Ok(s, 1) /\ CloseE(Val(s, 1), StSpec(s.calls[1]), D("1e-9"), D("1e-13") (.) MaxAbs(StSpec(s.calls[1])))
                                                      /\ AllGe(Val(s, 1), F(0)))>>

\* long recordings
LgPlan == LongPlan
LgChoice(p, c) == IF p = "fn" THEN {"pncc"} ELSE LongChoice(p, c)
LgSession(c) == C18Session(Trim(c))
LgClauses(s, e) == C18Clauses(s, e)
===================================================================================
