------------------------------- MODULE Converters -------------------------------
(* Frequency scales.  Every operator lifts to sequences.                         *)
EXTENDS Flt

MelApproaches  == {"Oshaghnessy", "Lindsay"}
BarkApproaches == {"Wang", "Tjomov", "Schroeder", "Terhardt", "Zwicker", "Traunmueller"}
ErbApproaches  == {"Glasberg"}
DefaultApproach == [mel |-> "Oshaghnessy", bark |-> "Wang", erb |-> "Glasberg"]

Lift(x, Op(_)) == IF IsNum(x) THEN Op(x) ELSE Map(x, Op)

HzToMel(f, ap) == CASE ap = "Oshaghnessy" -> F(2595) (.) Log10(F(1) (+) (f (/) F(700)))
                    [] ap = "Lindsay"     -> F(2410) (.) Log10(F(1) (+) (f (/) F(625)))
MelToHz(m, ap) == CASE ap = "Oshaghnessy" -> F(700) (.) (FPow(F(10), m (/) F(2595)) (-) F(1))
                    [] ap = "Lindsay"     -> F(625) (.) (FPow(F(10), m (/) F(2410)) (-) F(1))

ErbA == (F(1000) (.) Ln(F(10))) (/) (D("24.7") (.) D("4.37"))
HzToErb(f, ap) == ErbA (.) Log10(F(1) (+) (f (.) D("0.00437")))
ErbToHz(e, ap) == (FPow(F(10), e (/) ErbA) (-) F(1)) (/) D("0.00437")

\* Traunmueller's critical-band rate with its corrections at both ends.
TraunRate(f) == LET z == ((D("26.81") (.) f) (/) (f (+) F(1960))) (-) D("0.53") IN
                IF z \prec F(2) THEN z (+) (D("0.15") (.) (F(2) (-) z))
                ELSE IF D("20.1") \prec z THEN z (+) (D("0.22") (.) (z (-) D("20.1"))) ELSE z
TraunHz(b) == LET z == IF b \prec F(2) THEN (b (-) D("0.3")) (/) D("0.85")
                       ELSE IF D("20.1") \prec b THEN (b (+) D("4.422")) (/) D("1.22") ELSE b
              IN F(1960) (.) ((z (+) D("0.53")) (/) (D("26.28") (-) z))

HzToBark(f, ap) == CASE ap = "Wang"      -> F(6) (.) Arsinh(f (/) F(600))
                     [] ap = "Tjomov"    -> D("6.7") (.) Arsinh((f (+) F(20)) (/) F(600))
                     [] ap = "Schroeder" -> F(7) (.) Arsinh(f (/) F(650))
                     [] ap = "Terhardt"  -> D("13.3") (.) Atan((f (.) D("0.75")) (/) F(1000))
                     [] ap = "Zwicker"   -> D("8.7") (+) (D("14.2") (.) Log10(f (/) F(1000)))
                     [] ap = "Traunmueller" -> Lift(f, TraunRate)
BarkToHz(b, ap) == CASE ap = "Wang"      -> F(600) (.) Sinh(b (/) F(6))
                     [] ap = "Tjomov"    -> (F(600) (.) Sinh(b (/) D("6.7"))) (-) F(20)
                     [] ap = "Schroeder" -> F(650) (.) Sinh(b (/) F(7))
                     [] ap = "Terhardt"  -> (F(1000) (/) D("0.75")) (.) Tan(b (/) D("13.3"))
                     [] ap = "Zwicker"   -> FPow(F(10), ((b (-) D("8.7")) (/) D("14.2")) (+) F(3))
                     [] ap = "Traunmueller" -> Lift(b, TraunHz)

HzTo(scale, f, ap) == CASE scale = "mel" -> HzToMel(f, ap) [] scale = "bark" -> HzToBark(f, ap) [] scale = "erb" -> HzToErb(f, ap)
ToHz(scale, x, ap) == CASE scale = "mel" -> MelToHz(x, ap) [] scale = "bark" -> BarkToHz(x, ap) [] scale = "erb" -> ErbToHz(x, ap)
Approaches(scale)  == CASE scale = "mel" -> MelApproaches [] scale = "bark" -> BarkApproaches [] scale = "erb" -> ErbApproaches
=================================================================================
