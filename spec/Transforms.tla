----------------------------- MODULE Transforms -----------------------------
(***************************************************************************)
(* The transforms of a one-dimensional space.  State: a space (family,     *)
(* size, domain) and registers holding functions, each a set of columns of *)
(* exact expansion coefficients.  Transitions store functions, go back and *)
(* forth between coefficients and values (which leaves the function as it  *)
(* is), take scalar products, evaluate at rational points and differentiate *)
(* the basis.  Every transition states the exact result; registers change  *)
(* only when they are set.                                                 *)
(***************************************************************************)
EXTENDS Families, Mat, Rnd, FiniteSets, Json
CONSTANTS SEEDS, FAMS, MINN, MAXN, STEPS, REGS, EXACT

VARIABLES rng, fam, n, dom, cols, reg, hist
vars == <<rng, fam, n, dom, cols, reg, hist>>

Domains == <<<<-1, 1>>, <<0, 1>>, <<-2, 2>>, <<1, 4>>, <<"-1/2", "1/2">>, <<-3, 2>>, <<-1, 1>>>>
Pick(s, S) ==
  LET f == RndSet(s, "f", S) IN
  IF f \in {"R", "F"} THEN [f |-> f, al |-> RZero, be |-> RZero]
  ELSE Fam(f, IF f = "Q" THEN RndSet(s, "al", {"0", "1", "2", "1/2"})
              ELSE IF f = "W" THEN RndSet(s, "al", {"1/2", "3/2", "1"})
              ELSE RndSet(s, "al", {"0", "1", "1/2", "-1/2", "2"}),
          RndSet(s, "be", {"0", "1", "1/2", "-1/2", "2"}))
Fourier == fam.f \in {"R", "F"}
Unbounded == fam.f \in {"La", "H"}
Small == {"0", "1", "-1", "2", "1/2", "-3"}
Column(s, c) == [re |-> [i \in 1..n |-> R(RndSet(rng, <<"re", s, c, i>>, Small))],
                 im |-> [i \in 1..n |-> R(RndSet(rng, <<"im", s, c, i>>, Small))]]
ColsOf(s) == [c \in 1..cols |-> Column(s, c)]

Init == /\ rng \in SEEDS
        /\ fam = Pick(rng, FAMS)
        /\ n = RndIn(rng, "n", MINN, MAXN)
        /\ dom = IF fam.f \in {"La", "H"} THEN <<"0", "1">> ELSE RndSeq(rng, "dom", Domains)
        /\ cols = RndIn(rng, "cols", 1, 4)
        /\ reg = [k \in 1..REGS |-> ColsOf(<<"init", k>>)]
        /\ hist = <<[op |-> "space", fam |-> fam, n |-> n, dom |-> <<R(dom[1]), R(dom[2])>>, cols |-> cols, reg |-> reg]>>

Q == Basis(fam, n)
Kind(s) == RndSet(rng, <<"kind", s>>, {"default", "fast", "recursive", "vandermonde"})
Log(r) == hist' = Append(hist, r)
S == Len(hist)
TheReg == RndIn(rng, <<"r", S>>, 1, REGS)
Style == RndSet(rng, <<"style", S>>, {"output", "none", "buffers"})

Set == /\ LET k == TheReg
              v == ColsOf(<<"set", S>>)
          IN reg' = [reg EXCEPT ![k] = v] /\ Log([op |-> "set", k |-> k, v |-> v])
Back == /\ Log([op |-> "backward", k |-> TheReg, kind |-> Kind(S), style |-> Style,
                mesh |-> RndSet(rng, <<"mesh", S>>, {"default", "quadrature", "uniform", "default", "space"})])
        /\ UNCHANGED reg
Forth == /\ Log([op |-> "forward", k |-> TheReg, kind |-> Kind(S), style |-> Style])
         /\ UNCHANGED reg
Project == /\ Log([op |-> "project", kind |-> Kind(S), kind2 |-> RndSet(rng, <<"kind2", S>>, {"default", "fast", "recursive", "vandermonde"})])
           /\ UNCHANGED reg

(* \int f Q_i w, in units of the zeroth moment, and per unit length        *)
Scalar ==
  LET k == TheReg
      mom == Moments(fam, 2 * n + 2)
      norm == [i \in 1..n |-> Inner(Q[i], Q[i], mom)]
  IN /\ Log([op |-> "scalar", k |-> k, kind |-> Kind(S), style |-> Style,
             s |-> IF Fourier \/ n > EXACT THEN <<>>
                   ELSE [c \in 1..cols |-> [re |-> [i \in 1..n |-> RMul(norm[i], reg[k][c].re[i])],
                                            im |-> [i \in 1..n |-> RMul(norm[i], reg[k][c].im[i])]]]])
     /\ UNCHANGED reg
(* Values of the functions and of the derivatives of the basis at points   *)
(* of the physical domain                                                  *)
Half == IF Unbounded \/ Fourier THEN ROne ELSE RDiv(RSub(dom[2], dom[1]), 2)
Mid == IF Unbounded \/ Fourier THEN RZero ELSE RDiv(RAdd(dom[1], dom[2]), 2)
RefPoints == IF fam.f = "La" THEN <<"0", "1/3", "2", "7/2", "5">>
             ELSE IF fam.f = "H" THEN <<"-2", "-1/3", "0", "1", "5/2">>
             ELSE <<"-1", "-2/3", "0", "1/7", "1/2", "1">>
Comb(p, c) == FoldLeft(LAMBDA acc, i : PAdd(acc, PScale(c[i], p[i])), <<>>, [i \in 1..n |-> i])
Points ==
  /\ ~Fourier /\ n <= EXACT
  /\ LET k == TheReg
         d == RndIn(rng, <<"d", S>>, 0, IF Unbounded THEN 2 ELSE 3)
         D == [i \in 1..n |-> DifN(fam, Q[i], d)]
         V == [x \in 1..Len(RefPoints) |-> [i \in 1..n |-> PEval(D[i], RefPoints[x])]]
         U == [x \in 1..Len(RefPoints) |-> [i \in 1..n |-> PEval(Q[i], RefPoints[x])]]
     IN Log([op |-> "points", k |-> k, d |-> d, ref |-> RefPoints,
             phys |-> [x \in 1..Len(RefPoints) |-> RAdd(Mid, RMul(Half, RefPoints[x]))],
             V |-> V,    \* reference derivatives of the basis
             u |-> [c \in 1..cols |-> [re |-> [x \in 1..Len(RefPoints) |-> RDot(U[x], reg[k][c].re)],
                                       im |-> [x \in 1..Len(RefPoints) |-> RDot(U[x], reg[k][c].im)]]]])
  /\ UNCHANGED reg
Quad == /\ Log([op |-> "quad", mom |-> IF Fourier THEN <<>> ELSE Moments(fam, 2 * n)]) /\ UNCHANGED reg

Actions == <<"set", "backward", "backward", "forward", "forward", "project", "scalar", "scalar", "points", "quad">>
Next == /\ S <= STEPS
        /\ LET a == RndSeq(rng, <<"act", S>>, Actions) IN
           CASE a = "set" -> Set
             [] a = "backward" -> Back
             [] a = "forward" -> Forth
             [] a = "project" -> Project
             [] a = "scalar" -> Scalar
             [] a = "points" -> IF Fourier \/ n > EXACT THEN Back ELSE Points
             [] OTHER -> Quad
        /\ UNCHANGED <<rng, fam, n, dom, cols>>

(* Registers change only when set *)
OnlySet == [][reg' # reg => Len(hist') > Len(hist) /\ Last(hist').op = "set"]_vars
(* The scalar product is linear and diagonal because the basis is          *)
(* orthogonal: it must equal the integral of the product of polynomials    *)
ScalarOk == (Last(hist).op = "scalar" /\ Last(hist).s # <<>>) =>
   LET mom == Moments(fam, 2 * n + 2)
       h == Last(hist)
   IN \A c \in 1..cols : LET p == Comb(Q, reg[h.k][c].re) IN
        \A i \in 1..n : Inner(p, Q[i], mom) = h.s[c].re[i]
Emit == S = STEPS + 1 => PrintT(ToJson([steps |-> hist]))
=============================================================================
