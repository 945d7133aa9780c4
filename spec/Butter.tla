--------------------------------- MODULE Butter ---------------------------------
(* The 6th-order Butterworth band-pass as a cascade of second-order sections.     *)
(* Complex numbers are pairs <<re, im>>.                                          *)
EXTENDS Flt
CAdd(a, b) == <<a[1] (+) b[1], a[2] (+) b[2]>>
CSub(a, b) == <<a[1] (-) b[1], a[2] (-) b[2]>>
CMul(a, b) == <<(a[1] (.) b[1]) (-) (a[2] (.) b[2]), (a[1] (.) b[2]) (+) (a[2] (.) b[1])>>
CAbs2(a) == (a[1] (.) a[1]) (+) (a[2] (.) a[2])
CDiv(a, b) == LET m == CMul(a, <<b[1], FNeg(b[2])>>)  d == CAbs2(b) IN <<m[1] (/) d, m[2] (/) d>>
CScale(a, k) == <<a[1] (.) k, a[2] (.) k>>
CSqrt(a) == LET r == Sqrt(CAbs2(a)) IN
  <<Sqrt(FMax(F(0), (r (+) a[1]) (/) F(2))), (IF a[2] \prec F(0) THEN F(-1) ELSE F(1)) (.) Sqrt(FMax(F(0), (r (-) a[1]) (/) F(2)))>>
\* sections <<b, a>> of order-n band-pass with edges lo, hi (Hz) at rate fs; bilinear transform with prewarping
ButterSections(n, lo, hi, fs) ==
  LET warp(f) == Tan((Pi (.) f) (/) F(fs))
      w1 == warp(lo)  w2 == warp(hi)  B == w2 (-) w1  w02 == w1 (.) w2
      theta == F(2) (.) Atan(Sqrt(w02))                                    \* where the gain is 1
      \* prototype poles in the upper half plane
      lp(k) == LET t == (Pi (.) F(2 * k + n + 1)) (/) F(2 * n) IN <<Cos(t), Sin(t)>>
      bp(p) == LET h == CScale(p, B (/) F(2))  q == CSqrt(CSub(CMul(h, h), <<w02, F(0)>>)) IN <<CAdd(h, q), CSub(h, q)>>
      z(q) == CDiv(CAdd(<<F(1), F(0)>>, q), CSub(<<F(1), F(0)>>, q))
      sect(q) == LET p == z(q)
                     a == <<F(1), F(-2) (.) p[1], CAbs2(p)>>
                     e1 == <<Cos(theta), FNeg(Sin(theta))>>  e2 == <<Cos(F(2) (.) theta), FNeg(Sin(F(2) (.) theta))>>
                     num == CSub(<<F(1), F(0)>>, e2)
                     den == CAdd(CAdd(<<F(1), F(0)>>, CScale(e1, a[2])), CScale(e2, a[3]))
                     g == Sqrt(CAbs2(den) (/) CAbs2(num))
                 IN <<<<g, F(0), FNeg(g)>>, a>>
  IN [j \in 1..n |-> sect(bp(lp((j - 1) \div 2))[1 + (j % 2)])]
ButterFilter(x, n, lo, hi, fs) ==
  LET s == ButterSections(n, lo, hi, fs)
      RECURSIVE run(_, _)
      run(y, j) == IF j > Len(s) THEN y ELSE run(Lfilter(s[j][1], s[j][2], y), j + 1)
  IN run(x, 1)
==================================================================================
