----------------------------------- MODULE C17 -----------------------------------
(* Deltas.                                                                         *)
EXTENDS Scen
C17Plan == <<"w", "r", "k", "g", "lo">>
C17Choice(p, c) == CASE p = "w" -> {0, 99} \cup (IF Thorough THEN 1..24 ELSE {1, 2, 3, 4, 5, 8, 9, 10, 15, 21}) [] p = "r" -> {1, 3, 20} [] p = "k" -> {1, 2, 5, 9, 30, 130} \cup (IF c.r = 3 THEN {5000} ELSE {})
                     [] p = "g" -> {"noise", "ints", "ramp", "const"} [] p = "lo" -> IF c.g = "ints" THEN {"intarr"} ELSE {"c", "fortran", "view"}
C17Session(c) == <<[w |-> c.w, g |-> c.g, calls |-> <<CallOf("deltas", [x |-> ("$mat" :> [g |-> c.g, shape |-> <<c.r, c.k>>, seed |-> Seed0 + c.k + c.w, as |-> c.lo])] @@ Opt(c.w # 99, [w |-> c.w]))>>]>>
C17Clauses(s, e) == LET k == s.calls[1]  a == k.a @@ [w |-> 9]  h == a.w \div 2  v == k.out.val  T == N(a.x[1]) IN
  <<Clause("deltas", LAMBDA z : k.out.ok /\ CloseE(v, Deltas(a.x, a.w), D("1e-9"), D("1e-11") (.) (F(1) (+) MaxAbs(a.x)) (.) F(1 + h * h))),
    Clause("shape", LAMBDA z : k.out.meta.shape = Shape(a.x))>>
  \o (IF s.g = "const" THEN <<Clause("constant", LAMBDA z : MaxAbs(v) \preceq D("1e-9"))>> ELSE <<>>)
  \o (IF s.g = "ramp" /\ T > 2 * h THEN
      <<Clause("ramp", LAMBDA z : \A r \in 1..N(v) : CloseE(Cut(v[r], h, T - 2 * h), Const(T - 2 * h, F((h * (h + 1) * (2 * h + 1)) \div 3)), D("1e-9"), D("1e-7")))>> ELSE <<>>)
===================================================================================
