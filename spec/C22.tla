----------------------------------- MODULE C22 -----------------------------------
(* RASTA filtering.                                                                *)
EXTENDS Scen
C22Plan == <<"r", "k", "g", "lo", "off", "flat", "seed">>
C22Choice(p, c) == CASE p = "r" -> {1, 2, 5, 24} [] p = "k" -> {1, 2, 3, 4, 5, 6, 9, 40, 300, 1500} \cup (IF c.r <= 2 THEN {5000, 12000} ELSE {}) [] p = "g" -> {"noise", "ints", "const", "power", "ramp", "zeros"}
                     [] p = "lo" -> IF c.g = "ints" THEN {"intarr", "c"} ELSE {"c", "fortran", "view"} [] p = "off" -> {D("3"), D("-100")} [] p = "flat" -> {"no", "no2", "1e-4", "1e-6", "1e4"} [] p = "seed" -> 1..20
C22Session(c) ==
  LET m == [g |-> c.g, shape |-> <<c.r, c.k>>, seed |-> Seed0 + c.seed, as |-> c.lo] @@ Opt(c.lo # "intarr" /\ c.flat \notin {"no", "no2"}, [mul |-> D(c.flat)]) IN
  <<[g |-> c.g, calls |-> <<CallOf("rasta_filter", [x |-> ("$mat" :> m)]), CallOf("rasta_filter", [x |-> ("$mat" :> ([add |-> c.off] @@ m))])>>
       \* with one row's first entry changed, the other rows keep their output
       \o <<CallOf("rasta_filter", [x |-> ("$mat" :> ([first |-> D("55.5")] @@ m))])>>]>>
C22Clauses(s, e) == LET v == Val(s, 1)  x == s.calls[1].a.x  tol == D("1e-9") IN
  << Clause("rasta_filter", LAMBDA z : \A j \in 1..3 : LET y == s.calls[j].a.x IN Ok(s, j) /\ Shape(Val(s, j)) = Shape(y) /\ LET w == Rasta(y) IN \A r \in 1..N(y) : CloseE(Val(s, j)[r], w[r], tol, D("1e-10") (.) MaxAbs(y[r]))),
     Clause("offset", LAMBDA z : CloseE(Val(s, 2), v, tol, D("1e-9") (.) (F(100) (+) MaxAbs(x)))),
     Clause("head", LAMBDA z : \A r \in 1..N(v) : MaxAbs(Cut(v[r], 0, IF N(v[r]) < 4 THEN N(v[r]) ELSE 4)) \preceq F(0)),
     Clause("rows", LAMBDA z : N(v) > 1 => \A r \in 2..N(v) : SameBits(Val(s, 3)[r], v[r])),
     Returned(s) >>
  \o (IF s.g = "const" THEN <<Clause("constant", LAMBDA z : MaxAbs(v) \preceq (D("1e-10") (.) FMax(F(10), MaxAbs(x))))>> ELSE <<>>)
===================================================================================
