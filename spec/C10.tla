----------------------------------- MODULE C10 -----------------------------------
(* Scale conversions: formula, inverse, monotonicity; scalars and arrays.          *)
EXTENDS Scen
C10Plan == <<"sc", "ap", "form", "f">>
ScaleFns == [mel |-> <<"hz2mel", "mel2hz">>, bark |-> <<"hz2bark", "bark2hz">>, erb |-> <<"hz2erb", "erb2hz">>]
Freqs == <<"0", "1", "17.5", "20", "50", "99.9", "100", "148", "149", "150", "200", "201", "202", "203", "300", "440", "500", "625", "700", "999", "1000", "1001", "1500",
           "1960", "2000", "2500", "3000", "3400", "4000", "5000", "5512.5", "6000", "6300", "6400", "6500", "6550", "6600", "6700", "7000", "7700", "8000", "9000", "10000", "11025",
           "12000", "13500", "15500", "16000", "18000", "19999", "20000", "20001", "20500", "21000", "22049", "22050", "22051", "23999", "24000", "24001", "30000", "32000", "44100", "48000", "96000">>
C10Choice(p, c) == CASE p = "sc" -> {"mel", "bark", "erb"} [] p = "ap" -> Approaches(c.sc) \cup {"default"} [] p = "form" -> {"scalar", "array", "int", "intarr"}
                     [] p = "f" -> IF c.form \in {"array", "intarr"} THEN {0} ELSE IF c.ap = "Zwicker" THEN 2..Len(Freqs) ELSE 1..Len(Freqs)
ApOf(c) == IF c.ap = "default" THEN <<>> ELSE [approach |-> c.ap]
HzName(sc) == IF sc = "erb" THEN "fe" ELSE IF sc = "bark" THEN "fb" ELSE "fm"
\* Traunmueller's inverse is for scalars only
C10Session(c) ==
  LET fns == ScaleFns[c.sc]
      vals == IF c.ap = "Zwicker" THEN Tail(Freqs) ELSE Freqs
      whole == SelectSeq(vals, LAMBDA q : FEq(D(q), FFloor(D(q))))
      x == CASE c.form = "intarr" -> ("$mat" :> [g |-> "vals", shape |-> <<Len(whole)>>, v |-> Map(whole, D), as |-> "intarr"]) [] c.form = "array" -> ("$mat" :> [g |-> "vals", shape |-> <<Len(vals)>>, v |-> Map(vals, D)])
             [] c.form = "scalar" -> D(Freqs[c.f])
             [] c.form = "int" -> Trunc(D(Freqs[c.f]))
      back == IF c.form \in {"array", "intarr"} /\ c.ap = "Traunmueller" THEN <<>> ELSE <<CallOf(fns[2], (HzName(c.sc) :> ("$out" :> <<0>>)) @@ ApOf(c))>>
  IN IF c.form = "int" /\ FEq(F(x), F(0)) /\ c.ap = "Zwicker" THEN <<>>
     ELSE <<[sc |-> c.sc, ap |-> c.ap, calls |-> <<CallOf(fns[1], [f |-> x] @@ ApOf(c))>> \o back]>>
C10Clauses(s, e) ==
  LET ap == IF s.ap = "default" THEN DefaultApproach[s.sc] ELSE s.ap
      f == s.calls[1].a.f  v == Val(s, 1)
      vec == ~IsNum(f)
  IN << Clause("formula:" \o s.calls[1].fn, LAMBDA z : CloseE(v, HzTo(s.sc, F(f), ap), D("1e-11"), D("1e-11"))),
        Clause("increasing", LAMBDA z : vec => \A j \in 0..(N(v) - 2) : At(v, j) \prec At(v, j + 1)) >>
     \o (IF Len(s.calls) = 2 THEN
         << Clause("roundtrip", LAMBDA z : CloseE(Val(s, 2), F(f), D("1e-9"), D("1e-8"))),
            Clause("inverse:" \o s.calls[2].fn, LAMBDA z : CloseE(Val(s, 2), ToHz(s.sc, v, ap), D("1e-9"), D("1e-8"))) >> ELSE <<>>)

\* dense sweep: strictly increasing everywhere, and undone by the inverse
SwPlan == <<"sc", "ap", "lo", "step">>
SwChoice(p, c) == CASE p = "sc" -> {"mel", "bark", "erb"} [] p = "ap" -> Approaches(c.sc) [] p = "lo" -> {"1", "150.3", "1990", "6400", "9990", "20000.5", "21990", "60000"} [] p = "step" -> {"0.37", "7.1", "31"}
SwSession(c) ==
  LET fns == ScaleFns[c.sc]  vs == Tab(300, LAMBDA k : D(c.lo) (+) (F(k) (.) D(c.step)))
      back == IF c.ap = "Traunmueller" THEN <<>> ELSE <<CallOf(fns[2], (HzName(c.sc) :> ("$out" :> <<0>>)) @@ ApOf(c))>>
  IN <<[sc |-> c.sc, ap |-> c.ap, calls |-> <<CallOf(fns[1], [f |-> ("$mat" :> [g |-> "vals", shape |-> <<300>>, v |-> vs])] @@ ApOf(c))>> \o back]>>
SwClauses(s, e) == C10Clauses(s, e)
===================================================================================
