----------------------------------- MODULE C01 -----------------------------------
(* Validation: the whole product of boundary classes, for every entry point.       *)
EXTENDS Scen
C01Fns == FrameFns \cup BankCtors \cup {"framing", "get_dominant_frequencies"}
WithCeps == BankCeps \cup PlpCeps \cup {"pncc"}
Direct == {"framing", "get_dominant_frequencies"}          \* take the window as plain arguments
C01Plan == <<"fn", "fs", "low", "high", "ceps", "w", "own">>
C01Choice(p, c) ==
  CASE p = "fn" -> C01Fns
    [] p = "fs" -> {8000, 11025, 2001 + 2 * ((RunSeed * 5381) % 20000)}
    [] p = "low" -> IF c.fn \in (BankFns \cup BankCtors) THEN {"none", "-0.001", "-1e-9", "-50", "100"} ELSE {"none"}
    [] p = "high" -> IF c.fn \in (BankFns \cup BankCtors \cup CqtFns) THEN (IF c.low = "-1e-9" THEN {"none", "in"} ELSE {"none", "in", "edge", "hair", "above", "far"}) ELSE {"none"}
    [] p = "ceps" -> IF c.fn \in WithCeps THEN {"lt", "eq", "gt", "deq", "dgt"} ELSE {"none"}
    [] p = "w" -> IF c.fn \in BankCtors THEN {"none"} ELSE IF c.fn \in Direct THEN {"gt", "eq", "lt", "hair", "much", "none"} ELSE (IF c.low # "none" \/ c.high \notin {"none", "edge"} THEN {"gt", "eq", "lt", "none"} ELSE {"gt", "eq", "lt", "hair", "none"})
    \* a supplied bank does not change what is asked of the counts and of the window
    [] p = "own" -> IF c.fn \in BankFns /\ c.low = "none" /\ c.high = "none" THEN {"own", "given"} ELSE {"own"}
C01Win(c) == CASE c.w = "gt" -> <<D("0.02"), D("0.01")>> [] c.w = "eq" -> <<D("0.01"), D("0.01")>>
               [] c.w = "lt" -> <<D("0.01"), D("0.0101")>> [] c.w = "hair" -> <<D("0.01"), D("0.010000001")>> [] c.w = "much" -> <<D("0.01"), D("0.04")>>
Half(c) == F(c.fs) (/) F(2)
C01Args(c) ==
  LET dn == BankDefaults(c.fn).nfilts
      ncname == IF c.fn \in PlpCeps THEN "order" ELSE "num_ceps"
      cep == CASE c.ceps = "lt" -> [nfilts |-> 14] @@ (ncname :> 13) [] c.ceps = "eq" -> [nfilts |-> 13] @@ (ncname :> 13)
               [] c.ceps = "gt" -> [nfilts |-> 12] @@ (ncname :> 13) [] c.ceps = "deq" -> (ncname :> dn)
               [] c.ceps = "dgt" -> (ncname :> dn + 1) [] c.ceps = "none" -> <<>>
      hi == CASE c.high = "none" -> <<>> [] c.high = "in" -> [high_freq |-> D("0.4") (.) F(c.fs)] [] c.high = "edge" -> [high_freq |-> Half(c)]
              [] c.high = "hair" -> [high_freq |-> Half(c) (.) D("1.000000000001")] [] c.high = "above" -> [high_freq |-> Half(c) (+) D("0.01")] [] c.high = "far" -> [high_freq |-> F(c.fs)]
  IN Opt(c.own = "given", [fbanks |-> ("$mat" :> [g |-> "pos", shape |-> <<(IF Has(cep, "nfilts") THEN cep.nfilts ELSE dn), 257>>, seed |-> Seed0])])
     @@ (IF c.fn \in BankCtors THEN <<>> ELSE SigWith([g |-> "noise", n |-> c.fs \div 16, seed |-> Seed0, fs |-> c.fs]))
     @@ [fs |-> c.fs] @@ cep @@ hi @@ Dec("low_freq", IF c.low = "none" THEN "dflt" ELSE c.low)
     @@ (IF c.w = "none" THEN <<>>
         ELSE IF c.fn \in Direct THEN [win_len |-> C01Win(c)[1], win_hop |-> C01Win(c)[2]]
         ELSE [window |-> ("$win" :> [win_len |-> C01Win(c)[1], win_hop |-> C01Win(c)[2]])])
     @@ (IF c.fn \in CqtFns THEN [nfft |-> 2048] ELSE <<>>)
C01Session(c) == <<[calls |-> <<CallOf(c.fn, C01Args(c))>>]>>
Bad(k) == IF k.fn \in Direct THEN LET a == k.a @@ [win_len |-> D("0.025"), win_hop |-> D("0.01")] IN a.win_len \prec a.win_hop
          ELSE Rejected(k.fn, Full(k))
C01Clauses(s, e) ==
  LET k == s.calls[1] IN
  IF Bad(k) THEN <<Clause("rejected:" \o k.fn, LAMBDA z : ~k.out.ok /\ k.out.exc = "ParameterError")>>
  ELSE <<Clause("accepted:" \o k.fn, LAMBDA z : k.out.ok)>>
===================================================================================
