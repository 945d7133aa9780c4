----------------------------------- MODULE C30 -----------------------------------
(* Frame locality: outputs of related signals.                                     *)
EXTENDS Scen
Local == FrameFns \ {"pncc", "rplp"}
C30Plan == <<"fn">> \o AnyPlan \o <<"rel", "m", "ue", "lift">>
HasCeps(fn) == fn \in (BankCeps \cup PlpCeps \cup {"pncc", "lpcc", "cqcc"})
C30Choice(p, c) ==
  CASE p = "fn" -> Local
    [] p = "nf" -> IF c.win = Tiny THEN {130} ELSE {2, 3, 5, 9, 21}
    [] p = "ratio" /\ c.fn = "cqcc" -> {"dflt", "1"}
    [] p = "rel" -> {"outside", "outside2", "drop", "append", "appendfew"}
    [] p = "m" -> 0..40
    [] p = "ue" -> IF c.fn \in BankCeps THEN {"dflt", "on"} ELSE {"dflt"}
    [] p = "lift" -> {99, 5, -22}
    [] OTHER -> AnyChoice(p, c)
BaseArgs(c) == [pre_emph |-> FALSE] @@ Opt(c.ue = "on", [use_energy |-> TRUE]) @@ BArgs(IF HasCeps(c.fn) THEN Drop(Trim(c), {"ue"}) ELSE Drop(Trim(c), {"ue", "lift"}))
Changed(c, ops) == SigWith(SigDesc(c) @@ [ops |-> ops])
C30Session(c) ==
  LET a == BaseArgs(c)  L == LenOf(c)  S == HopOf(c)  n == SigLen(c)  m == c.m % c.nf
      k == IF c.nf = 1 THEN 0 ELSE 1 + (c.m % (c.nf - 1))
      b == CASE c.rel = "outside"  -> Changed(c, <<<<"edit", 0, m * S, 11>>, <<"edit", m * S + L, n, 12>>>>)
             [] c.rel = "outside2" -> Changed(c, <<<<"edit", m * S + L, n, 12>>, <<"edit", 0, m * S, 14>>, <<"edit", 0, (m * S) \div 2, 15>>>>)
             [] c.rel = "drop"     -> Changed(c, <<<<"drop", k * S>>>>)
             [] c.rel = "append"   -> Changed(c, <<<<"append", 3 * S + 1, 13>>>>)
             [] c.rel = "appendfew" -> Changed(c, <<<<"append", S - Remainder(c) - (IF S - Remainder(c) > 1 THEN 1 ELSE 0), 13>>>>)
  IN IF Fragile(CallOf(c.fn, a)) THEN <<>> ELSE <<[rel |-> c.rel, m |-> m, k |-> k, calls |-> <<CallOf(c.fn, a), CallOf(c.fn, b @@ a)>>]>>
\* the part of a result that belongs to frame m
RowOf(fn, v, m) == CASE fn \in Spectrograms \cup {"lpc"} -> <<v[1][m + 1], v[2][m + 1]>>
                     [] fn = "cqt_spectrogram" -> <<Col(v.re, m), Col(v.im, m)>>
                     [] OTHER -> <<v[m + 1]>>
RowCount(fn, v) == CASE fn \in Spectrograms \cup {"lpc"} -> N(v[1]) [] fn = "cqt_spectrogram" -> N(v.re[1]) [] OTHER -> N(v)
SameRow(fn, u, v) == NearAny(u, v, TolOf(fn))
Expected(c) == LET a == Full(c) IN FrameCount(N(a.sig), WinLen(a), WinHop(a))
C30Clauses(s, e) ==
  LET fn == s.calls[1].fn  u == Val(s, 1)  v == Val(s, 2)  r == RowCount(fn, u) IN
  << Clause("rows", LAMBDA z : r = Expected(s.calls[1]) /\ RowCount(fn, v) = Expected(s.calls[2])),
     Clause(s.rel \o ":" \o fn, LAMBDA z :
       CASE s.rel \in {"outside", "outside2"} -> SameRow(fn, RowOf(fn, v, s.m), RowOf(fn, u, s.m))
         [] s.rel = "drop" -> \A m \in 0..(r - s.k - 1) : SameRow(fn, RowOf(fn, v, m), RowOf(fn, u, m + s.k))
         [] OTHER -> \A m \in 0..(r - 1) : SameRow(fn, RowOf(fn, v, m), RowOf(fn, u, m))),
     Returned(s) >>

\* the recursive extractors are causal up to their look-ahead
CsPlan == <<"fn">> \o AnyPlan \o <<"rel", "m", "lift">>
CsChoice(p, c) ==
  CASE p = "fn" -> {"pncc", "rplp"} [] p = "nf" -> IF c.win = Tiny THEN {130} ELSE {3, 5, 9, 21}
    [] p = "rel" -> {"future", "append", "take"} [] p = "m" -> 0..40 [] p = "lift" -> {99, 5, -22} [] OTHER -> AnyChoice(p, c)
Ahead(fn) == IF fn = "pncc" THEN 2 ELSE 0
CsSession(c) ==
  LET a == [pre_emph |-> FALSE] @@ BArgs(Trim(c))  L == LenOf(c)  S == HopOf(c)  n == SigLen(c)  m == c.m % c.nf
      last == m + Ahead(c.fn)
      b == CASE c.rel = "future" -> Changed(c, <<<<"edit", last * S + L, n, 12>>>>)
             [] c.rel = "append" -> Changed(c, <<<<"append", 4 * S + 1, 13>>>>)
             [] c.rel = "take"   -> Changed(c, <<<<"take", (IF last < c.nf THEN last ELSE c.nf - 1) * S + L>>>>)
  IN IF Fragile(CallOf(c.fn, a)) THEN <<>>
     ELSE <<[rel |-> c.rel, upto |-> IF c.rel = "append" THEN c.nf - 1 - Ahead(c.fn) ELSE IF last < c.nf THEN m ELSE c.nf - 1 - Ahead(c.fn), calls |-> <<CallOf(c.fn, a), CallOf(c.fn, b @@ a)>>]>>
CsClauses(s, e) == LET fn == s.calls[1].fn IN
  << Clause(s.rel \o ":" \o fn, LAMBDA z : \A m \in 0..s.upto : SameRow(fn, RowOf(fn, Val(s, 2), m), RowOf(fn, Val(s, 1), m))), Returned(s) >>

\* long recordings
LgPlan == LongPlan \o <<"rel", "m", "ue", "lift">>
LgChoice(p, c) == IF p = "m" THEN {0, 1, c.nf \div 2, c.nf - 1, Rnd(c, 90, 0, c.nf - 1)} ELSE IF p \in {"nf", "nfft", "nfilts", "order", "wd", "fs", "wk", "win", "oct", "bins", "f0", "thr", "nceps", "ratio", "band"} THEN (IF p = "ratio" /\ c.fn = "cqcc" THEN {"dflt"} ELSE LongChoice(p, c)) ELSE C30Choice(p, c)
LgSession(c) == C30Session(Trim(c))
LgClauses(s, e) == C30Clauses(s, e)
===================================================================================
