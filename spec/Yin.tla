---------------------------------- MODULE Yin ----------------------------------
(* YIN pitch tracking.                                                          *)
EXTENDS Flt

\* d(tau) = sum_j (x[j] - x[j+tau])^2 over the window, for tau = 0..n-1
Difference(x, n) == LET w == N(x) IN
  Tab(n, LAMBDA tau : LET u == Cut(x, 0, w - tau) (-) Cut(x, tau, w - tau) IN Dot(u, u))
\* cumulative-mean-normalised difference
Cmnd(d) == LET c == CumSum(Cut(d, 1, N(d) - 1)) IN
  Cat(<<F(1)>>, Tab(N(d) - 1, LAMBDA i : (At(d, i + 1) (.) F(i + 1)) (/) At(c, i)))

\* One step of the lag search: state [tau, mode]; mode "seek" (first dip), "slide" (to its bottom), "done", "none"
SearchInit(lo) == [tau |-> lo, mode |-> "seek"]
SearchStep(s, cm, hi, thr, Lt(_, _)) ==
  CASE s.mode = "seek" /\ ~(s.tau < hi) -> [tau |-> 0, mode |-> "none"]
    [] s.mode = "seek" /\ s.tau < hi /\ Lt(At(cm, s.tau), thr) -> [s EXCEPT !.mode = "slide"]
    [] s.mode = "seek" /\ s.tau < hi /\ ~Lt(At(cm, s.tau), thr) -> [s EXCEPT !.tau = @ + 1]
    [] s.mode = "slide" /\ s.tau + 1 < hi /\ Lt(At(cm, s.tau + 1), At(cm, s.tau)) -> [s EXCEPT !.tau = @ + 1]
    [] s.mode = "slide" /\ ~(s.tau + 1 < hi /\ Lt(At(cm, s.tau + 1), At(cm, s.tau))) -> [s EXCEPT !.mode = "done"]

RECURSIVE SearchRun(_, _, _, _)
SearchRun(s, cm, hi, thr) == IF s.mode \in {"done", "none"} THEN s.tau ELSE SearchRun(SearchStep(s, cm, hi, thr, FLt), cm, hi, thr)
Search(cm, lo, hi, thr) == SearchRun(SearchInit(lo), cm, hi, thr)

\* Which lags are acceptable when comparisons closer than eps may go either way.
Admissible(cm, lo, hi, thr, eps) ==
  LET below(t)  == At(cm, t) \prec (thr (-) eps)              \* certainly below
      maybe(t)  == At(cm, t) \prec (thr (+) eps)
      down(t)   == At(cm, t + 1) \prec (At(cm, t) (+) eps)      \* may slide from t to t+1
      stay(t)   == t + 1 >= hi \/ ~(At(cm, t + 1) \prec (At(cm, t) (-) eps))
      starts    == {t \in lo..(hi - 1) : maybe(t) /\ \A u \in lo..(t - 1) : ~below(u)}
      reach(s)  == {t \in s..(hi - 1) : stay(t) /\ \A u \in s..(t - 1) : down(u)}
  IN (UNION {reach(s) : s \in starts}) \cup (IF \A t \in lo..(hi - 1) : ~below(t) THEN {0} ELSE {})
================================================================================
