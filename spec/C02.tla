----------------------------------- MODULE C02 -----------------------------------
(* Framing: every small signal/window/hop exhaustively, then arbitrary ones.       *)
EXTENDS Scen
C02Plan == <<"n", "L", "S">>
C02Choice(p, c) == CASE p = "n" -> 1..(IF Thorough THEN 26 ELSE 14) [] p = "L" -> 1..c.n [] p = "S" -> 1..c.L
\* lengths that are not whole numbers of samples are cut, not rounded
C02Session(c) ==
  LET g == [g |-> "index", n |-> c.n, fs |-> 1] IN
  <<[calls |-> <<CallOf("framing", SigWith(g) @@ [fs |-> 1, win_len |-> F(c.L) (+) D("0.75"), win_hop |-> F(c.S) (+) D("0.75")]),
                 CallOf("framing", SigWith(g) @@ [fs |-> 1000, win_len |-> (F(c.L) (+) D("0.5")) (/) F(1000), win_hop |-> (F(c.S) (+) D("0.25")) (/) F(1000)])>>]>>
FrArgs(a) == a @@ [fs |-> 16000, win_len |-> D("0.025"), win_hop |-> D("0.01")]
FramingOk(k) ==
  LET a == FrArgs(k.a)  L == FrameLen(F(a.win_len), F(a.fs))  S == FrameLen(F(a.win_hop), F(a.fs))  v == k.out.val IN
  /\ k.out.ok /\ Len(v) = 2
  /\ FEq(v[2], F(L))
  /\ SameBits(v[1], Frames(a.sig, L, S))
  /\ k.out.meta[1].shape = <<FrameCount(N(a.sig), L, S), L>>
  /\ k.out.meta[1].dtype = k.ameta.sig.dtype
C02Clauses(s, e) == Tab(Len(s.calls), LAMBDA j : Clause("framing", LAMBDA z : FramingOk(s.calls[j + 1])))

FrPlan == <<"seed", "wd", "fs", "wk", "win", "nf", "rem", "rep">>
FrChoice(p, c) == CASE p = "nf" -> {1, 2, 3, 10, 57, 400, 1030} \cup (IF LenOf(c) <= 30 THEN {5000, 33000} ELSE {})
                    [] p = "wk" -> {"std", "odd", "pow", "long", "rand", "exact", "exact2", "cents"}
                    \* hundredths and thousandths of a second, whose product with the rate is not exact
                    [] p = "win" /\ c.wd # "yes" /\ c.wk = "cents" -> LET k == Rnd(c, 5, 2, 99) IN {<<D("0." \o (IF k < 10 THEN "0" ELSE "") \o ToString(k)), D("0.0" \o (IF k < 10 THEN "0" ELSE "") \o ToString(k))>>}
                    [] p = "win" /\ c.wd # "yes" /\ c.wk # "std" -> StdChoice(p, IF c.wk = "exact2" THEN [c EXCEPT !.wk = "exact"] ELSE c)
                    [] p = "fs" -> StdChoice(p, c) \cup {100, 1000, Rnd(c, 7, 50, 2000)}
                    [] p = "win" -> IF c.wd = "yes" THEN {DefWin} ELSE WinSet \cup {Tiny, <<D("0.0007"), D("0.0004")>>, <<D("0.3"), D("0.001")>>}
                    [] p = "rep" -> {"float64", "float64b", "float32", "int16", "int32", "int64", "list", "strided", "reversed", "fortran", "readonly", "colview", "column", "uint16", "int8", "float16", "bool", "complex64", "bigendian"}
                    [] OTHER -> StdChoice(p, c)
FrSession(c) ==
  IF HopOf(c) < 1 \/ SigLen(c) > 400000 THEN <<>> ELSE
  LET g == [g |-> IF c.rep \in {"uint16", "int8", "bool"} THEN "bytes" ELSE "ints", n |-> SigLen(c), seed |-> Seed0 + c.seed, fs |-> c.fs, as |-> IF c.rep = "float64b" THEN "float64" ELSE c.rep,
            amp |-> IF c.rep \in {"float64", "float64b", "strided", "reversed", "fortran", "colview", "readonly"} THEN D("0.1") ELSE F(1)]
  IN <<[rep |-> c.rep, calls |-> <<CallOf("framing", SigWith(g) @@ [fs |-> c.fs] @@ (IF c.wd = "yes" THEN <<>> ELSE [win_len |-> c.win[1], win_hop |-> c.win[2]]))>>]>>
CxOk(k) == LET a == FrArgs(k.a)  L == FrameLen(F(a.win_len), F(a.fs))  S == FrameLen(F(a.win_hop), F(a.fs))  v == k.out.val IN
  /\ k.out.ok /\ Len(v) = 2 /\ FEq(v[2], F(L)) /\ k.out.meta[1].dtype = "c8"
  /\ SameBits(v[1].re, Frames(a.sig.re, L, S)) /\ SameBits(v[1].im, Frames(a.sig.im, L, S))
FrClauses(s, e) == IF s.rep = "complex64" THEN <<Clause("framing:complex", LAMBDA z : CxOk(s.calls[1]))>> ELSE <<Clause("framing:" \o s.rep, LAMBDA z : FramingOk(
    LET k == s.calls[1] IN
    CASE s.rep = "column" -> [k EXCEPT !.a = [sig |-> Flatten(k.a.sig)] @@ k.a] [] s.rep = "list" -> [ameta |-> [sig |-> [dtype |-> "f8"]]] @@ k [] OTHER -> k))>>

\* recordings of tens of millions of samples: few frames, far apart; the samples are their own indices
\* (of every frame a few samples are recorded)
BgPlan == <<"L", "S", "tail", "rep">>
BgChoice(p, c) == CASE p = "L" -> {3001, 400003} [] p = "S" -> {c.L, c.L - 1001} [] p = "tail" -> {0, c.S - 1} [] p = "rep" -> {"float64", "int32"}
BgLen(c) == c.L + ((17000003 + Rnd([seed |-> c.L], 3, 1, 40000) * 100) \div c.S) * c.S + c.tail
BgCols(L) == <<0, 1, L \div 3, L - 2, L - 1>>
BgSession(c) ==
  <<[n |-> BgLen(c), L |-> c.L, S |-> c.S, calls |-> <<[hide |-> <<"sig">>, pick |-> BgCols(c.L)] @@ CallOf("framing", SigWith([g |-> "index", n |-> BgLen(c), fs |-> 1, as |-> c.rep]) @@ [fs |-> 1, win_len |-> F(c.L) (+) D("0.25"), win_hop |-> F(c.S) (+) D("0.25")])>>]>>
BgClauses(s, e) == LET k == s.calls[1]  v == k.out.val  cnt == FrameCount(s.n, s.L, s.S) IN
  << Clause("framing:long", LAMBDA z : k.out.ok /\ k.out.meta[1].shape = <<cnt, s.L>> /\ FEq(v[2], F(s.L))
       /\ \A m \in 0..(cnt - 1) : SameBits(v[1][m + 1], Tab(5, LAMBDA j : F(m * s.S + BgCols(s.L)[j + 1])))) >>

\* the primitive underneath
SkPlan == <<"n", "L", "S", "rep">>
SkChoice(p, c) == CASE p = "n" -> {1, 5, 9, 12} [] p = "L" -> 1..c.n [] p = "S" -> 1..c.n [] p = "rep" -> {"float64", "int16", "strided"}
SkSession(c) == <<[calls |-> <<CallOf("stride_trick", [a |-> ("$sig" :> [g |-> "index", n |-> c.n, as |-> c.rep]), stride_length |-> c.L, stride_step |-> c.S])>>]>>
SkClauses(s, e) == LET k == s.calls[1] IN
  <<Clause("stride_trick", LAMBDA z : k.out.ok /\ SameBits(k.out.val, Frames(k.a.a, k.a.stride_length, k.a.stride_step)))>>
===================================================================================
