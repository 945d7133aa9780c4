----------------------------------- MODULE C29 -----------------------------------
(* Finite in, finite out.                                                          *)
EXTENDS Scen
C29Plan == <<"fn">> \o AnyPlan \o <<"ue", "lift", "norm">>
Degenerate == {"silence", "dc", "impulse", "fullscale", "gaps", "gapstart", "gapend", "alt", "tone", "ints", "square", "onesample"}
C29Choice(p, c) ==
  CASE p = "fn" -> FrameFns
    [] p = "g" -> Degenerate
    [] p = "amp" -> {D("1"), D("1e-6"), D("32767"), D("1e-30")}
    [] p = "nf" /\ c.win = Tiny -> {130}
    [] p = "ue" -> IF c.fn \in BankCeps THEN {"dflt", "on"} ELSE {"dflt"}
    [] p = "lift" -> {99, 3, -22} [] p = "norm" -> {"none", "none2", "ms"}
    [] OTHER -> AnyChoice(p, c)
C29Sig(c) == LET L == LenOf(c)  S == HopOf(c)  n == SigLen(c)  base == [n |-> n, seed |-> Seed0 + c.seed, fs |-> c.fs, amp |-> c.amp] IN
  CASE c.g = "impulse" -> [g |-> "impulse", at |-> (c.seed * 37) % n] @@ base
    [] c.g = "onesample" -> [g |-> "impulse", at |-> 0] @@ base
    [] c.g = "gaps" -> [g |-> "gaps", gaps |-> <<<<S - 5, 2 * S + L + 5>>>>] @@ base
    [] c.g = "gapstart" -> [g |-> "gaps", gaps |-> <<<<0, (n * 2) \div 3>>>>] @@ base
    [] c.g = "gapend" -> [g |-> "gaps", gaps |-> <<<<L - 1, n>>>>] @@ base
    [] c.g = "tone" -> [g |-> "tone", f |-> (F(1 + (c.seed % 7)) (.) F(c.fs)) (/) F(16), ph |-> F(0)] @@ base
    [] c.g = "square" -> [g |-> "square", per |-> 2 + (c.seed % 60)] @@ base
    [] OTHER -> [g |-> c.g] @@ base
C29Session(c) ==
  LET t == Drop(Trim(c), {"ue", "norm"})
      a == SigWith(C29Sig(c)) @@ Opt(c.ue = "on", [use_energy |-> TRUE]) @@ Opt(c.norm = "ms" /\ c.fn \in (BankCeps \cup PlpCeps \cup {"pncc", "lpcc", "cqcc"}), [normalize |-> "ms"])
           @@ BArgs(IF c.fn \in (BankCeps \cup PlpCeps \cup {"pncc", "lpcc", "cqcc"}) THEN t ELSE Drop(t, {"lift"}))
  IN IF Fragile(CallOf(c.fn, a)) THEN <<>> ELSE <<[g |-> c.g, calls |-> <<CallOf(c.fn, a)>>]>>
RECURSIVE Finite(_)
Finite(v) == IF IsRec(v) THEN \A x \in DOMAIN v : Finite(v[x]) ELSE IF Shape(v) = <<-1>> THEN \A n \in 1..Len(v) : Finite(v[n]) ELSE AllFinite(v)
C29Clauses(s, e) == << Returned(s), Clause("finite:" \o s.calls[1].fn \o ":" \o s.g, LAMBDA z : Finite(Val(s, 1))) >>

\* the trackers
TrPlan == <<"fn", "fs", "g", "amp", "seed", "bf", "win", "nf", "rem">>
TrChoice(p, c) == CASE p = "fn" -> {"get_dominant_frequencies", "compute_yin"} [] p = "fs" -> {8000, 16000, 44100} [] p = "g" -> IF c.fn = "compute_yin" THEN Degenerate \ {"dc"} ELSE Degenerate
                    [] p = "amp" -> {D("1"), D("1e-6"), D("32767")} [] p = "bf" -> BOOLEAN [] p = "win" -> {<<D("0.03"), D("0.01")>>} [] p = "nf" -> {2, 3, 9} [] OTHER -> StdChoice(p, c)
TrSession(c) == <<[g |-> c.g, calls |-> <<CallOf(c.fn, SigWith(C29Sig(c)) @@ [fs |-> c.fs, win_len |-> c.win[1], win_hop |-> c.win[2]] @@ Opt(c.fn # "compute_yin" /\ c.bf, [butter_filter |-> TRUE]))>>]>>
TrClauses(s, e) == C29Clauses(s, e)

\* long recordings
LgPlan == LongPlan \o <<"ue", "lift", "norm">>
LgChoice(p, c) == IF p \in {"nf", "nfft", "nfilts", "order", "wd", "fs", "wk", "win", "oct", "bins", "f0", "thr", "nceps", "ratio", "band"} THEN LongChoice(p, c) ELSE C29Choice(p, c)
LgSession(c) == C29Session(Trim(c))
LgClauses(s, e) == C29Clauses(s, e)
===================================================================================
