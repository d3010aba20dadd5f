------------------------------ MODULE Families ------------------------------
(***************************************************************************)
(* The orthogonal families on their reference domains, exactly.            *)
(*   C, U      Chebyshev polynomials of first and second kind              *)
(*   L         Legendre polynomials                                        *)
(*   Q, W, J   Jacobi P_n^(a,a) / P_n^(a,a)(1), Gegenbauer, Jacobi         *)
(*   La, H     Laguerre functions L_n exp(-x/2), Hermite functions         *)
(*             H_n exp(-x^2/2) (not normalized); represented by the        *)
(*             polynomial factor                                           *)
(* A family is [f, al, be] with the Jacobi parameters as rationals.        *)
(* Integrals are in units of the zeroth moment of the weight.              *)
(***************************************************************************)
EXTENDS Poly

Fam(f, al, be) == CASE f = "C" -> [f |-> f, al |-> "-1/2", be |-> "-1/2"]
                    [] f = "U" -> [f |-> f, al |-> "1/2", be |-> "1/2"]
                    [] f \in {"L", "La", "H"} -> [f |-> f, al |-> RZero, be |-> RZero]
                    [] f \in {"Q", "W"} -> [f |-> f, al |-> R(al), be |-> R(al)]
                    [] OTHER -> [f |-> f, al |-> R(al), be |-> R(be)]

(* Sequence of n elements from the first two and a recurrence             *)
Recur(n, p0, p1, Step(_, _, _)) ==
  LET go == FoldLeft(LAMBDA acc, k : Append(acc, Step(k, acc[k], acc[k - 1])),
                     <<p0, p1>>, [i \in 1..(IF n > 2 THEN n - 2 ELSE 0) |-> i + 1])
  IN SubSeq(go, 1, n)      \* Step(k, P_{k-1}, P_{k-2}) is P_k, stored at k+1

JacobiStep(al, be, k, p, q) ==
  LET s == RAdd(al, be)
      t == RAdd(2 * k, s)
      c0 == RMul(RMul(2 * k, RAdd(k, s)), RSub(t, 2))
      c1 == RSub(t, 1)
      c2 == RMul(t, RSub(t, 2))
      c3 == RSub(RMul(al, al), RMul(be, be))
      c4 == RMul(RMul(RMul(2, RAdd(k - 1, al)), RAdd(k - 1, be)), t)
      lhs == PScale(c1, PMul(<<c3, c2>>, p))
  IN PScale(RDiv(1, c0), PSub(lhs, PScale(c4, q)))
Jacobi(n, al, be) ==
  Recur(n, POne, <<RDiv(RSub(al, be), 2), RDiv(RAdd(RAdd(al, be), 2), 2)>>,
        LAMBDA k, p, q : JacobiStep(al, be, k, p, q))
ScaleBy(ps, G(_, _)) == [i \in 1..Len(ps) |-> PScale(G(i - 1, ps[i]), ps[i])]
Standard(fam, n) ==     \* through the Jacobi polynomials
  LET P == Jacobi(n, fam.al, fam.be) IN
  CASE fam.f \in {"C", "Q"} -> ScaleBy(P, LAMBDA k, p : RDiv(1, PEval(p, 1)))
    [] fam.f = "U" -> ScaleBy(P, LAMBDA k, p : RDiv(k + 1, PEval(p, 1)))
    [] fam.f = "W" ->   \* C_n^(l) = (2l)_n / (l+1/2)_n P_n^(l-1/2, l-1/2)
        LET c == FoldLeft(LAMBDA acc, k : Append(acc, RMul(acc[k], RDiv(RAdd(RMul(2, fam.al), k), RAdd(fam.al, k)))),
                          <<ROne>>, [i \in 1..n |-> i])
        IN ScaleBy(P, LAMBDA k, p : c[k + 1])
    [] OTHER -> P
Basis(fam, n) ==
  CASE fam.f = "C" -> Recur(n, POne, PX, LAMBDA k, p, q : PSub(PScale(2, PShift(p)), q))
    [] fam.f = "U" -> Recur(n, POne, PScale(2, PX), LAMBDA k, p, q : PSub(PScale(2, PShift(p)), q))
    [] fam.f = "L" -> Recur(n, POne, PX, LAMBDA k, p, q :
                        PSub(PScale(RFrac(2 * k - 1, k), PShift(p)), PScale(RFrac(k - 1, k), q)))
    [] fam.f = "La" -> Recur(n, POne, <<ROne, "-1">>, LAMBDA k, p, q :
                        PSub(PScale(RFrac(1, k), PMul(<<R(2 * k - 1), "-1">>, p)), PScale(RFrac(k - 1, k), q)))
    [] fam.f = "H" -> Recur(n, POne, PScale(2, PX), LAMBDA k, p, q :
                        PSub(PScale(2, PShift(p)), PScale(2 * (k - 1), q)))
    [] OTHER -> Standard(fam, n)

(* Derivative of a function of the family, on the reference domain         *)
Dif(fam, p) == CASE fam.f = "La" -> PAdd(PDiff(p), PScale("-1/2", p))
                 [] fam.f = "H" -> PSub(PDiff(p), PShift(p))
                 [] OTHER -> PDiff(p)
RECURSIVE DifN(_, _, _)
DifN(fam, p, k) == IF k = 0 THEN p ELSE DifN(fam, Dif(fam, p), k - 1)

(* Moments of x^k, k = 0..n-1, in units of the zeroth one.  For La and H   *)
(* the weight is the square of the exponential factor.                     *)
Moments(fam, n) ==
  LET s == RAdd(fam.al, fam.be)
      d == RSub(fam.be, fam.al)
      nxt(k, mk, mkm) == \* moment k from k-1 and k-2
        CASE fam.f = "La" -> RMul(k, mk)
          [] fam.f = "H" -> IF k % 2 = 1 THEN RZero ELSE RMul(RFrac(k - 1, 2), mkm)
          [] OTHER -> RDiv(RAdd(RMul(k - 1, mkm), RMul(d, mk)), RAdd(k + 1, s))
  IN FoldLeft(LAMBDA acc, k : Append(acc, nxt(k, acc[k], IF k = 1 THEN RZero ELSE acc[k - 1])),
              <<ROne>>, [i \in 1..(n - 1) |-> i])
MInt(p, mom) == IF p = <<>> THEN RZero ELSE RDot(p, SubSeq(mom, 1, Len(p)))
Inner(p, q, mom) == MInt(PMul(p, q), mom)
=============================================================================
