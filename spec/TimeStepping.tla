---------------------------- MODULE TimeStepping ----------------------------
(***************************************************************************)
(* Time integration of M du/dt = A u + M N(u, t).  The unknowns form       *)
(* blocks that the linear operator does not couple (one complex number for *)
(* every wavenumber of a fully periodic space, a vector of Legendre        *)
(* coefficients for every wavenumber of a space with a bounded axis); the  *)
(* nonlinear part N(x) = s x + q x^2 + f + g t acts on every coefficient.  *)
(* All numbers are rationals rounded to DIG decimals after every           *)
(* multiplication; the schemes are written as published and their order is *)
(* an invariant.  The program is a sequence of calls of solve over         *)
(* intervals, with steps that may change, and of stops and resumes.        *)
(***************************************************************************)
EXTENDS Families, Poly, Rnd, Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS SEEDS, SCHEMES, KINDS, STEPS

VARIABLES rng, scheme, prob, x, nold, dt, time, hist
vars == <<rng, scheme, prob, x, nold, dt, time, hist>>
DIG == 32
Rd(a) == RRound(a, DIG)

(* ---- complex numbers, vectors, small matrices -------------------------- *)
CZ == <<"0", "0">>
COne == <<"1", "0">>
CR(r) == <<R(r), "0">>
CAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
CSub(a, b) == <<RSub(a[1], b[1]), RSub(a[2], b[2])>>
CMul(a, b) == <<Rd(RSub(RMul(a[1], b[1]), RMul(a[2], b[2]))), Rd(RAdd(RMul(a[1], b[2]), RMul(a[2], b[1])))>>
CScl(r, a) == <<Rd(RMul(r, a[1])), Rd(RMul(r, a[2]))>>
CDiv(a, b) == LET d == RAdd(RMul(b[1], b[1]), RMul(b[2], b[2])) IN
  <<Rd(RDiv(RAdd(RMul(a[1], b[1]), RMul(a[2], b[2])), d)), Rd(RDiv(RSub(RMul(a[2], b[1]), RMul(a[1], b[2])), d))>>
CNull(a) == RIsZero(a[1]) /\ RIsZero(a[2])
CAbs1(a) == RAdd(RAbs(a[1]), RAbs(a[2]))
VAdd(u, v) == TLCEval([i \in 1..Len(u) |-> CAdd(u[i], v[i])])
VSub(u, v) == TLCEval([i \in 1..Len(u) |-> CSub(u[i], v[i])])
VScl(r, u) == TLCEval([i \in 1..Len(u) |-> CScl(r, u[i])])
VMul(u, v) == TLCEval([i \in 1..Len(u) |-> CMul(u[i], v[i])])
MatVec(B, u) == TLCEval([i \in 1..Len(B) |-> FoldLeft(CAdd, CZ, [j \in 1..Len(u) |-> CMul(B[i][j], u[j])])])
MatAxpy(r, A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A) |-> CAdd(CScl(r, A[i][j]), B[i][j])]])
RECURSIVE CElim(_, _)
CElim(W, k) ==
  LET n == Len(W) IN
  IF k > n THEN W
  ELSE LET p == CHOOSE i \in k..n : \A j \in k..n : RLeq(CAbs1(W[j][k]), CAbs1(W[i][k]))
           Z == TLCEval([W EXCEPT ![k] = W[p], ![p] = W[k]])
           r == TLCEval([j \in 1..(n + 1) |-> CDiv(Z[k][j], Z[k][k])])
       IN CElim(TLCEval([i \in 1..n |-> IF i = k THEN r ELSE [j \in 1..(n + 1) |-> CSub(Z[i][j], CMul(Z[i][k], r[j]))]]), k + 1)
CSolve(A, b) == LET W == CElim(TLCEval([i \in 1..Len(A) |-> Append(A[i], b[i])]), 1) IN TLCEval([i \in 1..Len(A) |-> W[i][Len(A) + 1]])

(* ---- exponential functions: exp, phi_1, phi_2, phi_3 ------------------- *)
(* phi_m(z) = \sum_k z^k / (k+m)!  (phi_0 = exp)                           *)
Terms == 50   \* |z| < 6
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN "1" ELSE RMul(n, Fact(n - 1))
Down == [k \in 1..Terms |-> Terms - k]
Phi(m, z) == LET w == TLCEval(z) IN
  TLCEval(CScl(RDiv(1, Fact(m)), FoldLeft(LAMBDA acc, k : TLCEval(CAdd(COne, CMul(CScl(RDiv(1, k + m + 1), w), acc))), COne, Down)))
Exp(z) == Phi(0, z)

(* ---- the problem on one block: [M, A, s, q, f, g] ---------------------- *)
NL(b, u, t) == VAdd(VAdd(VScl(b.s, u), VScl(b.q, VMul(u, u))), VAdd(b.f, VScl(t, b.g)))
Lam(b) == b.A[1][1]            \* diagonal problems: M = 1

(* ---- the schemes: one step of size h from u at time t ------------------ *)
Rt2 == "141421356237309504880168872420969807857/100000000000000000000000000000000000000"
RK3A == <<"8/15", "5/12", "3/4">>
RK3B == <<"0", "-17/60", "-5/12">>
RK3C == <<"0", "8/15", "2/3">>
RECURSIVE CnStages(_, _, _, _, _, _)
CnStages(b, h, t, u, n1, k) ==   \* low-storage Runge-Kutta with Crank-Nicolson for the linear part
  IF k > 3 THEN u
  ELSE LET n == NL(b, u, RAdd(t, RMul(RK3C[k], h)))
           th == RDiv(RMul(RAdd(RK3A[k], RK3B[k]), h), 2)
           rhs == VAdd(MatVec(MatAxpy(th, b.A, b.M), u), MatVec(b.M, VAdd(VScl(RMul(RK3A[k], h), n), VScl(RMul(RK3B[k], h), n1))))
       IN CnStages(b, h, t, TLCEval(CSolve(MatAxpy(RNeg(th), b.A, b.M), rhs)), n, k + 1)
StepCN(b, h, t, u) == CnStages(b, h, t, u, [i \in 1..Len(u) |-> CZ], 1)
StepBE(b, h, t, u, n1) ==   \* semi-implicit: linear part backward Euler, N extrapolated from the last two steps
  LET n == NL(b, u, t)
      e == IF n1 = <<>> THEN n ELSE VSub(VScl(2, n), n1)
  IN CSolve(MatAxpy(RNeg(h), b.A, b.M), MatVec(b.M, VAdd(u, VScl(h, e))))
StepRK4(b, h, t, u) ==
  LET F(v) == VAdd(NL(b, v, t), VScl(1, MatVec(b.A, v)))
      k1 == TLCEval(F(u)) k2 == TLCEval(F(VAdd(u, VScl(RDiv(h, 2), k1)))) k3 == TLCEval(F(VAdd(u, VScl(RDiv(h, 2), k2)))) k4 == F(VAdd(u, VScl(h, k3)))
  IN VAdd(u, VScl(RDiv(h, 6), VAdd(VAdd(k1, k4), VScl(2, VAdd(k2, k3)))))
Coef(c, v) == LET d == TLCEval(c) IN TLCEval([i \in 1..Len(v) |-> CMul(d, v[i])])
(* the coefficients of the exponential schemes for one block and step size *)
Cf(s, b, h) ==
  LET z == TLCEval(CScl(h, Lam(b))) zh == TLCEval(CScl("1/2", z))
      p1 == TLCEval(Phi(1, z)) p2 == TLCEval(Phi(2, z)) p3 == TLCEval(Phi(3, z)) IN
  CASE s = "ETD" -> <<Exp(z), p1>>
    [] s = "ETDRK4" -> TLCEval(<<Exp(z), Exp(zh), CScl(RDiv(h, 2), Phi(1, zh)),
                         CAdd(CSub(p1, CScl(3, p2)), CScl(4, p3)), CSub(CScl(2, p2), CScl(4, p3)), CSub(CScl(4, p3), p2)>>)
    [] OTHER -> <<>>
StepETD(b, h, t, u, c) == VAdd(Coef(c[1], u), VScl(h, Coef(c[2], NL(b, u, t))))
StepETDRK4(b, h, t, u, c) ==   \* Cox & Matthews
  LET nu == TLCEval(NL(b, u, t))
      a == TLCEval(VAdd(Coef(c[2], u), Coef(c[3], nu)))   na == TLCEval(NL(b, a, t))
      d == TLCEval(VAdd(Coef(c[2], u), Coef(c[3], na)))   nd == TLCEval(NL(b, d, t))
      e == TLCEval(VAdd(Coef(c[2], a), Coef(c[3], VSub(VScl(2, nd), nu))))   ne == NL(b, e, t)
  IN VAdd(Coef(c[1], u), VScl(h, VAdd(VAdd(Coef(c[4], nu), Coef(c[5], VAdd(na, nd))), Coef(c[6], ne))))
(* Ascher, Ruuth & Spiteri: implicit coefficients I (rows 1..s), explicit X (rows 1..s, column j is stage j-1) *)
Gam == RDiv(RSub(2, Rt2), 2)
Del == RSub(1, RDiv(1, RMul(2, Gam)))
Tableau(s) ==
  CASE s = "IMEXRK111" -> [I |-> <<<<"1">>>>, X |-> <<<<"1">>>>]
    [] s = "IMEXRK222" -> [I |-> <<<<Gam>>, <<RSub(1, Gam), Gam>>>>, X |-> <<<<Gam>>, <<Del, RSub(1, Del)>>>>]
    [] s = "IMEXRK443" -> [I |-> <<<<"1/2">>, <<"1/6", "1/2">>, <<"-1/2", "1/2", "1/2">>, <<"3/2", "-3/2", "1/2", "1/2">>>>,
                           X |-> <<<<"1/2">>, <<"11/18", "1/18">>, <<"5/6", "-5/6", "1/2">>, <<"1/4", "7/4", "3/4", "-7/4">>>>]
RECURSIVE ImexStages(_, _, _, _, _, _, _)
ImexStages(T, b, h, u, K, L, v) ==   \* K: N of the stages so far, L: A of the implicit stages so far, v: last stage
  LET i == Len(K) + 1 IN
  IF i > Len(T.I) THEN v
  ELSE LET K2 == Append(K, TLCEval(NL(b, v, 0)))
           e == FoldLeft(VAdd, u, [j \in 1..i |-> VScl(RMul(h, T.X[i][j]), K2[j])])
           rhs == FoldLeft(VAdd, MatVec(b.M, e), [j \in 1..(i - 1) |-> VScl(RMul(h, T.I[i][j]), L[j])])
           w == TLCEval(CSolve(MatAxpy(RNeg(RMul(h, T.I[i][i])), b.A, b.M), rhs))
       IN ImexStages(T, b, h, u, K2, Append(L, TLCEval(MatVec(b.A, w))), w)
Step(s, b, h, t, u, n1, c) ==
  CASE s \in {"IRK3", "IMEXRK3"} -> StepCN(b, h, t, u)
    [] s = "BackwardEuler" -> StepBE(b, h, t, u, n1)
    [] s = "RK4" -> StepRK4(b, h, t, u)
    [] s = "ETD" -> StepETD(b, h, t, u, c)
    [] s = "ETDRK4" -> StepETDRK4(b, h, t, u, c)
    [] OTHER -> ImexStages(Tableau(s), b, h, u, <<>>, <<>>, u)
Exponential == {"RK4", "ETD", "ETDRK4"}
Timed == {"IRK3", "BackwardEuler"}
Imex == {"IMEXRK3", "IMEXRK111", "IMEXRK222", "IMEXRK443"}
OrderN(s) == CASE s \in {"RK4", "ETDRK4"} -> 4 [] s \in {"IRK3", "IMEXRK3", "IMEXRK443"} -> 3 [] s = "IMEXRK222" -> 2 [] OTHER -> 1
OrderL(s) == IF s \in {"IRK3", "IMEXRK3"} THEN 2 ELSE OrderN(s)
NExp(s) == IF s = "ETD" THEN 1 ELSE OrderL(s)

(* ---- drawing a problem ------------------------------------------------- *)
Small == <<"1", "-1", "1/2", "-1/2", "2", "1/3", "-3/2", "3/4">>
RC(r, s) == <<RndSeq(r, <<s, "re">>, Small), RndSeq(r, <<s, "im">>, Small)>>
RB(r, s, re) == IF re THEN CR(RC(r, s)[1]) ELSE RC(r, s)   \* coefficients on a bounded axis alone are real
Leg(n) == Basis(Fam("L", "0", "0"), n)
Int11(p) == LET P == PInt(p) IN RSub(PEval(P, 1), PEval(P, -1))
ShenD(n) == LET L == TLCEval(Leg(n)) IN [k \in 1..(n - 2) |-> PSub(L[k], L[k + 2])]
Gram(n, d) == LET B == TLCEval(ShenD(n)) IN TLCEval([i \in 1..(n - 2) |-> [j \in 1..(n - 2) |-> CR(Int11(PMul(B[i], PDiffN(B[j], d))))]])
Draw(r, sch) ==
  LET kind == RndSet(r, "kind", KINDS \cap (IF sch \in Exponential THEN {"fourier", "vector"}
                                            ELSE IF sch \in Imex THEN {"line", "bounded", "mixed", "mixed3"} ELSE {"line", "bounded", "mixed", "mixed3", "mixedvector"}))
      nF == CASE kind = "fourier" -> RndIn(r, "dim", 1, 3) [] kind = "vector" -> 2 [] kind = "line" -> 1 [] kind = "bounded" -> 0 [] kind = "mixed3" -> 2 [] OTHER -> 1
      hasB == kind \in {"bounded", "mixed", "mixed3", "mixedvector"}
      real == RndIn(r, "real", 0, 1) = 1
      n == [i \in 1..nF |-> IF sch \in Exponential THEN RndIn(r, <<"n", i>>, 5, 6) ELSE RndIn(r, <<"n", i>>, 5, 8)]
      nB == IF hasB THEN RndIn(r, "nB", 4, 6) ELSE 0
      nc == IF kind \in {"vector", "mixedvector"} THEN (nF + (IF hasB THEN 1 ELSE 0)) ELSE 1
      (* linear operator: c u + nu Lap u + a u_1 + e u_111 (derivatives 1 and 3 along the first periodic axis) *)
      c == RndSeq(r, "c", IF sch \in Imex THEN <<"1/4", "1/2", "-1", "-3">> ELSE <<"0", "1/2", "-1", "-3">>) nu == RndSeq(r, "nu", IF sch \in Exponential THEN <<"0", "1/4", "1/2">> ELSE <<"0", "1/4", "1", "2">>)
      a == IF nF = 0 THEN "0" ELSE RndSeq(r, "a", <<"0", "0", "1", "-1/2">>)
      e == IF nF = 0 \/ hasB \/ kind = "vector" THEN "0" ELSE RndSeq(r, "e", <<"0", "0", "1/4", "-1">>)
      k(j) == [i \in 1..nF |-> LET h == (n[i] - 1) \div 2 IN IF real /\ i = nF THEN RndIn(r, <<"k", j, i>>, 0, h) ELSE RndIn(r, <<"k", j, i>>, 0 - h, h)]
      ks == {k(j) : j \in 1..(IF nF = 0 THEN 1 ELSE 3)}
      kq == SetToSeq(ks)
      sq(v) == FoldLeft(LAMBDA t, i : t + i * i, 0, v)
      lam(v) == <<RSub(c, RMul(nu, sq(v))), IF nF = 0 THEN "0" ELSE RSub(RMul(a, v[1]), RMul(e, v[1] * v[1] * v[1]))>>
      M1 == IF hasB THEN Gram(nB, 0) ELSE <<<<COne>>>>
      K1 == IF hasB THEN Gram(nB, 2) ELSE <<<<CZ>>>>
      d == Len(M1)
      A(v) == [i \in 1..d |-> [j \in 1..d |-> CAdd(CMul(lam(v), M1[i][j]), CScl(nu, K1[i][j]))]]
      s == RndSeq(r, "s", <<"0", "1/2", "-1", "1/3">>) q == RndSeq(r, "q", <<"0", "1/4", "-1/2">>)
      blk(v, j) == [k |-> v, comp |-> j, M |-> M1, A |-> A(v), s |-> s, q |-> q,
                 f |-> [i \in 1..d |-> IF RndBool(r, <<"f?", i, v, j>>) THEN RB(r, <<"f", i, v, j>>, nF = 0) ELSE CZ],
                 g |-> [i \in 1..d |-> IF sch \in Timed THEN RB(r, <<"g", i, v, j>>, nF = 0) ELSE CZ]]
      nb == Len(kq) IN
  [kind |-> kind, n |-> n, nB |-> nB, real |-> (real /\ nF > 0), nc |-> nc, c |-> c, nu |-> nu, a |-> a, e |-> e, s |-> s, q |-> q,
   pos |-> IF hasB THEN RndIn(r, "pos", 1, nF + 1) ELSE 0,
   form |-> RndSeq(r, "form", <<"expr", "array">>), zero |-> (RIsZero(c) /\ RIsZero(nu) /\ RIsZero(a) /\ RIsZero(e)),
   blocks |-> [j \in 1..(nb * nc) |-> blk(kq[1 + ((j - 1) % nb)], 1 + (j - 1) \div nb)]]
DrawX(r, p, s) == [j \in 1..Len(p.blocks) |-> [i \in 1..Len(p.blocks[j].M) |-> RB(r, <<"x", s, j, i>>, p.n = <<>>)]]
Dts == <<"1/10", "1/8", "1/50", "1/3", "1/40", "1/100">>

(* ---- behaviour --------------------------------------------------------- *)
S == Len(hist)
Log(r) == hist' = Append(hist, r)
Init == /\ rng \in SEEDS /\ scheme = RndSet(rng, "scheme", SCHEMES)
        /\ prob = TLCEval(Draw(rng, scheme)) /\ x = DrawX(rng, prob, 0) /\ nold = <<>> /\ dt = "0" /\ time = "0" /\ hist = <<>>
Show(b) == [k |-> b.k, comp |-> b.comp, f |-> b.f, g |-> b.g]
Begin == /\ S = 0
         /\ Log([scheme |-> scheme, x |-> x,
                 prob |-> [prob EXCEPT !.blocks = [j \in 1..Len(@) |-> Show(@[j])]]])
         /\ UNCHANGED <<rng, scheme, prob, x, nold, dt, time>>
(* all blocks through the steps of one call of solve; the log of the call-back *)
Large(y) == \E j \in 1..Len(y) : \E i \in 1..Len(y[j]) : ~RLeq(CAbs1(y[j][i]), 100)
Round(v) == TLCEval([i \in 1..Len(v) |-> <<Rd(v[i][1]), Rd(v[i][2])>>])
RECURSIVE March(_, _, _, _, _, _, _)
March(y, no, h, t, end, log, cf) ==
  IF RLeq(end, t) \/ Large(y) THEN [x |-> y, nold |-> no, t |-> t, log |-> log]
  ELSE LET B == prob.blocks
           z == TLCEval([j \in 1..Len(B) |-> Round(Step(scheme, B[j], h, t, y[j], IF no = <<>> THEN <<>> ELSE no[j], cf[j]))])
           n2 == IF scheme = "BackwardEuler" THEN TLCEval([j \in 1..Len(B) |-> NL(B[j], y[j], t)]) ELSE <<>>
           t2 == RAdd(t, h)
       IN March(z, n2, h, t2, end, Append(log, [t |-> t2, n |-> Len(log) + 1, x |-> z]), cf)
Cfs(h) == TLCEval([j \in 1..Len(prob.blocks) |-> Cf(scheme, prob.blocks[j], h)])
Hist2(h) == IF h = dt THEN nold ELSE <<>>     \* a new set-up forgets the previous step
Call == LET h == IF dt = "0" \/ RndIn(rng, <<"new", S>>, 0, 2) = 0 THEN RndSeq(rng, <<"dt", S>>, Dts) ELSE dt
            m == RndIn(rng, <<"m", S>>, 0, IF prob.kind \in {"mixed3", "mixedvector"} THEN 2 ELSE 3)
            end == RAdd(time, RMul(h, IF m > 0 /\ RndIn(rng, <<"part", S>>, 0, 3) = 0 THEN RSub(m, "2/5") ELSE R(m)))
            r == TLCEval(March(x, Hist2(h), h, time, end, <<>>, Cfs(h))) IN
   /\ IF Large(r.x) THEN Log([op |-> "none"]) /\ UNCHANGED <<x, nold, dt, time>>   \* an unstable step: not taken
      ELSE /\ x' = r.x /\ nold' = r.nold /\ dt' = h /\ time' = r.t
           /\ Log([op |-> "solve", dt |-> h, t0 |-> time, t1 |-> end, calls |-> r.log])
   /\ UNCHANGED <<rng, scheme, prob>>
Resume ==   \* a new integrator continues from the data of the old one
   /\ nold' = <<>> /\ dt' = "0" /\ Log([op |-> "resume"]) /\ UNCHANGED <<rng, scheme, prob, x, time>>
Next == \/ Begin
        \/ /\ S >= 1 /\ S <= STEPS
           /\ IF S > 1 /\ RndIn(rng, <<"op", S>>, 0, 4) = 0 THEN Resume ELSE Call
Spec == Init /\ [][Next]_vars

(* ---- properties -------------------------------------------------------- *)
Eps == "1/10000"
Tol(p) == RMul("400", RPow(Eps, p + 1))
Near(a, b, t) == RLeq(CAbs1(CSub(a, b)), t)
One(l, s, q, f, g) == [M |-> <<<<COne>>>>, A |-> <<<<l>>>>, s |-> s, q |-> q, f |-> <<f>>, g |-> <<g>>]
Done1(b, u) == Step(scheme, b, Eps, 0, <<u>>, <<>>, Cf(scheme, b, Eps))[1]
(* local error on problems with known solution *)
OrderLinear == S = 0 => LET l == RC(rng, "ol") s == RndSeq(rng, "os", Small) u == RC(rng, "ou") IN
   Near(Done1(One(l, s, "0", CZ, CZ), u), CMul(Exp(CScl(Eps, CAdd(l, CR(s)))), u), Tol(NExp(scheme)))
OrderNonlinear == S = 0 => LET q == RndSeq(rng, "oq", Small) u == CScl("1/5", RC(rng, "ou")) IN    \* u' = q u^2
   Near(Done1(One(CZ, "0", q, CZ, CZ), u), CDiv(u, CSub(COne, CScl(RMul(q, Eps), u))), Tol(OrderN(scheme)))
ExactLinear == S = 0 /\ scheme \in {"ETD", "ETDRK4"} => LET l == RC(rng, "ol") f == RC(rng, "of") u == RC(rng, "ou") IN  \* u' = l u + f
   Near(Done1(One(l, "0", "0", f, CZ), u),
        CSub(CMul(CAdd(u, CDiv(f, l)), Exp(CScl(Eps, l))), CDiv(f, l)), RPow("1/10", DIG - 6))
ExactTime == S = 0 /\ scheme = "IRK3" => LET g == RC(rng, "og") u == RC(rng, "ou") IN      \* u' = g t
   Near(Done1(One(CZ, "0", "0", CZ, g), u), CAdd(u, CScl(RDiv(RMul(Eps, Eps), 2), g)), RPow("1/10", DIG - 6))
(* the stages of the Runge-Kutta pairs agree on when they are *)
Consistent == S = 0 /\ scheme \in Imex \ {"IMEXRK3"} => LET T == Tableau(scheme) IN
   \A i \in 1..Len(T.I) : Rd(RSum(T.I[i])) = Rd(RSum(T.X[i]))
(* a call of one interval is the calls of its parts *)
Split == S >= 2 /\ Last(hist).op = "solve" /\ Len(Last(hist).calls) > 1 =>
   LET g == Last(hist) c == g.calls
       last == March(c[Len(c) - 1].x, IF scheme = "BackwardEuler" THEN [j \in 1..Len(prob.blocks) |-> NL(prob.blocks[j], IF Len(c) = 2 THEN hist[S].calls[1].x[j] ELSE c[Len(c) - 2].x[j], 0)] ELSE <<>>,
                     g.dt, c[Len(c) - 1].t, c[Len(c)].t, <<>>, Cfs(g.dt))
   IN scheme = "BackwardEuler" \/ last.x = c[Len(c)].x
Counted == S >= 2 /\ Last(hist).op = "solve" =>
   LET g == Last(hist) m == Len(g.calls) IN
   /\ \A i \in 1..m : g.calls[i].n = i /\ g.calls[i].t = RAdd(g.t0, RMul(i, g.dt))
   /\ RLeq(g.t1, RAdd(g.t0, RMul(m, g.dt))) /\ (m > 0 => RLt(RAdd(g.t0, RMul(m - 1, g.dt)), g.t1))
Emit == S = STEPS + 1 => PrintT(ToJson([steps |-> hist]))
=============================================================================
