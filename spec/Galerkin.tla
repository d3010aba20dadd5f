------------------------------ MODULE Galerkin ------------------------------
(***************************************************************************)
(* Assembly of one-dimensional Galerkin matrices.  A behaviour picks the   *)
(* families, the size and the physical domain, and then assembles matrices *)
(*    G_ij = \int d^a Q_i/dX^a  p(X)  d^b Q_j/dX^b  w dX                   *)
(* of the orthogonal basis functions over the physical domain, in units of *)
(* the zeroth moment of the weight; every other space of the family is a   *)
(* set of linear combinations of these.  It also states multiplication and *)
(* differentiation in the basis (recursion matrices).                      *)
(***************************************************************************)
EXTENDS Families, Rnd, FiniteSets, Json
CONSTANTS SEEDS, STEPS, FAMS, MINN, MAXN, CROSS

VARIABLES rng, test, trial, n, dom, TB, UB, mom, hist
vars == <<rng, test, trial, n, dom, TB, UB, mom, hist>>

Jac == {"C", "U", "L", "Q", "W", "J"}
PickFam(r, salt, S) ==
  LET f == RndSet(r, <<salt, "f">>, S) IN
  Fam(f, IF f = "Q" THEN RndSet(r, <<salt, "al">>, {"0", "1", "2", "1/2", "-1/2"})
         ELSE IF f = "W" THEN RndSet(r, <<salt, "al">>, {"1/2", "3/2", "1"})
         ELSE RndSet(r, <<salt, "al">>, {"0", "1", "1/2", "-1/2", "2"}),
      RndSet(r, <<salt, "be">>, {"0", "1", "1/2", "-1/2", "2"}))
Domains == <<<<-1, 1>>, <<0, 1>>, <<-2, 2>>, <<1, 4>>, <<"-1/2", "1/2">>, <<-3, 2>>, <<-1, 1>>>>

Unbounded == test.f \in {"La", "H"}
(* physical X = c + h x with x in the reference domain *)
Half == IF Unbounded THEN ROne ELSE RDiv(RSub(dom[2], dom[1]), 2)
Mid == IF Unbounded THEN RZero ELSE RDiv(RAdd(dom[1], dom[2]), 2)

Init == /\ rng \in SEEDS
        /\ test = PickFam(rng, "test", FAMS)
        /\ trial = IF CROSS /\ test.f \in Jac /\ Rnd(rng, "cross", 3) = 0 THEN PickFam(rng, "trial", FAMS \cap Jac) ELSE test
        /\ n = RndIn(rng, "n", MINN, MAXN)
        /\ dom = RndSeq(rng, "dom", Domains)
        /\ TB = Basis(test, n)
        /\ UB = Basis(trial, n)
        /\ mom = Moments(test, 2 * n + 12)
        /\ hist = <<[op |-> "basis", test |-> test, trial |-> trial, n |-> n,
                     dom |-> IF test.f \in {"La", "H"} THEN <<"0", "1">> ELSE <<R(dom[1]), R(dom[2])>>]>>

(* <D^a q_i, p(x) D^b u_j> as products through the matrix of moments       *)
Pad(p) == p
Gram(a, b, p) ==
  LET DU == [j \in 1..n |-> DifN(trial, UB[j], b)]
      DT == [i \in 1..n |-> PMul(p, DifN(test, TB[i], a))]
      \* row functional of test i: r_k = \int DT_i x^k
      row(i) == [k \in 1..(n + 4) |-> IF DT[i] = <<>> THEN RZero ELSE RDot(DT[i], SubSeq(mom, k, k + Len(DT[i]) - 1))]
  IN [i \in 1..n |-> LET ri == row(i) IN
       [j \in 1..n |-> IF DU[j] = <<>> THEN RZero ELSE RDot(DU[j], SubSeq(ri, 1, Len(DU[j])))]]

WPoly(r, s) ==     \* the weight, a polynomial in the physical coordinate
  CASE Rnd(r, <<"w", s>>, 4) = 0 -> POne
    [] Rnd(r, <<"w", s>>, 4) = 1 -> PPow(PX, RndIn(r, <<"we", s>>, 1, 3))
    [] Rnd(r, <<"w", s>>, 4) = 2 -> PPow(<<"1", RndSet(r, <<"ws", s>>, {"1", "-1"})>>, RndIn(r, <<"we", s>>, 1, 2))
    [] OTHER -> <<R(RndIn(r, <<"w0", s>>, -2, 2)), R(RndIn(r, <<"w1", s>>, -3, 3)),
                  R(RndIn(r, <<"w2", s>>, 1, 3))>>
Assemble ==
  LET s == Len(hist)
      hi == IF Unbounded THEN 2 ELSE 4
      a == IF Rnd(rng, <<"a0", s>>, 2) = 0 THEN 0 ELSE RndIn(rng, <<"a", s>>, 0, hi)
      b == RndIn(rng, <<"b", s>>, 0, hi)
      w == WPoly(rng, s)
      ref == PCompose(w, Mid, Half)
      G == Gram(a, b, ref)
      sc == RPow(Half, 1 - a - b)
  IN hist' = Append(hist, [op |-> "gram", a |-> a, b |-> b, w |-> w,
                           G |-> [i \in 1..n |-> RScale(sc, G[i])]])

(* Coefficients of polynomial p in the basis UB (back substitution)        *)
RECURSIVE InBasis(_, _, _)
InBasis(p, B, acc) ==
  LET q == PTrim(p) IN
  IF q = <<>> THEN acc
  ELSE LET k == Len(q)
           c == RDiv(q[k], B[k][k])
       IN InBasis(PSub(q, PScale(c, B[k])), B, [acc EXCEPT ![k] = c])
Coefs(p, B) == InBasis(p, B, [i \in 1..Len(B) |-> RZero])
Recursion ==
  LET s == Len(hist)
      q == RndIn(rng, <<"q", s>>, 1, 4)
      B == Basis(test, n + 4)
  IN hist' = Append(hist, [op |-> "recursion", q |-> q,
        \* columns: expansion of x^q Q_j, and of Q_j'
        X |-> [j \in 1..n |-> Coefs(PMul(PPow(PX, q), B[j]), B)],
        D |-> [j \in 1..n |-> IF test.f \in Jac THEN Coefs(PDiff(B[j]), B) ELSE <<>>]])

Next == /\ Len(hist) <= STEPS
        /\ \/ Len(hist) < STEPS /\ Assemble
           \/ Len(hist) = STEPS /\ Recursion
        /\ UNCHANGED <<rng, test, trial, n, dom, TB, UB, mom>>

Done == Len(hist) = STEPS + 1
LastStep == hist[Len(hist)]

(* Consistency of the specification itself                                 *)
SameAsJacobi == Len(hist) = 1 /\ test.f \in Jac =>
                  \A i \in 1..n : PEq(TB[i], Standard(test, n)[i])
Orthogonal == Len(hist) = 1 =>
   LET S == [i \in 1..n |-> [j \in 1..n |-> Inner(TB[i], TB[j], mom)]]
   IN \A i, j \in 1..n : (i = j) # RIsZero(S[i][j])
(* integration by parts where the weight is 1 *)
Parts == Len(hist) = 1 /\ test.f \in {"L", "La", "H"} =>
   \A i, j \in 1..n :
     LET lhs == RAdd(Inner(Dif(test, TB[i]), TB[j], mom), Inner(TB[i], Dif(test, TB[j]), mom))
         at(x) == RMul(PEval(TB[i], x), PEval(TB[j], x))
     IN lhs = CASE test.f = "L" -> RDiv(RSub(at(1), at(-1)), 2)   \* unit: the length of the domain
                [] test.f = "La" -> RNeg(at(0))
                [] OTHER -> RZero
RecursionOk == LastStep.op = "recursion" =>
   LET B == Basis(test, n + 4) IN
   \A j \in 1..n : PEq(FoldLeft(LAMBDA acc, k : PAdd(acc, PScale(LastStep.X[j][k], B[k])), <<>>, [k \in 1..(n + 4) |-> k]),
                       PMul(PPow(PX, LastStep.q), TB[j]))
Emit == Done => PrintT(ToJson([steps |-> hist]))
=============================================================================
