------------------------------- MODULE Fields -------------------------------
(***************************************************************************)
(* Functions on tensor product domains, represented exactly.  An axis is   *)
(*   [k, n, dom, bc, quad]   k in {"F","R"}: periodic (complex / real      *)
(*      transform), dom = <<s, r>> the interval (s pi, s pi + 2 r pi)      *)
(*      with reference coordinate X = (x - s pi)/r;                        *)
(*   otherwise a polynomial family, dom = <<a, b>>.                        *)
(* A function is a sequence of separable terms                             *)
(*   [re, im, fac]   with fac[i] = [k, p]: exp(i k X) on a periodic axis   *)
(*   (p = 1), the polynomial p(x) on a bounded one (k = 0).                *)
(***************************************************************************)
EXTENDS Poly, Rnd, FiniteSets, Pencils

IsF(ax) == ax.k \in {"F", "R"}
Deg(p) == Len(PTrim(p)) - 1
Half(n) == (n - 1) \div 2
MaxDeg(ax) == IF ax.quad = "GL" THEN ax.n - 2 ELSE ax.n - 1
(* exact algebra                                                           *)
FZero == <<>>
SameFac(s, t) == \A i \in 1..Len(s.fac) : s.fac[i].k = t.fac[i].k /\ PEq(s.fac[i].p, t.fac[i].p)
Null(t) == (RIsZero(t.re) /\ RIsZero(t.im)) \/ \E i \in 1..Len(t.fac) : PTrim(t.fac[i].p) = <<>>
FAddTerm(f, t) ==
  LET w == {i \in 1..Len(f) : SameFac(f[i], t)} IN
  IF Null(t) THEN f
  ELSE IF w = {} THEN Append(f, t)
  ELSE LET i == CHOOSE i \in w : TRUE
           u == [f[i] EXCEPT !.re = RAdd(@, t.re), !.im = RAdd(@, t.im)]
       IN IF Null(u) THEN RemoveAt(f, i) ELSE [f EXCEPT ![i] = u]
FAdd(f, g) == FoldLeft(FAddTerm, f, g)
FScale(c, f) == IF RIsZero(c) THEN FZero ELSE [i \in 1..Len(f) |-> [f[i] EXCEPT !.re = RMul(c, @), !.im = RMul(c, @)]]
FSub(f, g) == FAdd(f, FScale(-1, g))
Conj(t) == [re |-> t.re, im |-> RNeg(t.im), fac |-> [i \in 1..Len(t.fac) |-> [k |-> 0 - t.fac[i].k, p |-> t.fac[i].p]]]
TMul(s, t) == [re |-> RSub(RMul(s.re, t.re), RMul(s.im, t.im)), im |-> RAdd(RMul(s.re, t.im), RMul(s.im, t.re)),
               fac |-> [i \in 1..Len(s.fac) |-> [k |-> s.fac[i].k + t.fac[i].k, p |-> PMul(s.fac[i].p, t.fac[i].p)]]]
FMul(f, g) == FoldLeft(FAdd, FZero, [i \in 1..Len(f) |-> [j \in 1..Len(g) |-> TMul(f[i], g[j])]])
(* derivative along axis i (1-based); d/dx = (1/r) d/dX                    *)
TDiff(axes, t, i) ==
  IF IsF(axes[i]) THEN LET c == RDiv(t.fac[i].k, axes[i].dom[2]) IN [t EXCEPT !.re = RNeg(RMul(c, t.im)), !.im = RMul(c, t.re)]
  ELSE [t EXCEPT !.fac[i].p = PDiff(@)]
FDiff(axes, f, i) == FoldLeft(FAddTerm, FZero, [j \in 1..Len(f) |-> TDiff(axes, f[j], i)])
RECURSIVE FDiffN(_, _, _, _)
FDiffN(axes, f, i, m) == IF m = 0 THEN f ELSE FDiffN(axes, FDiff(axes, f, i), i, m - 1)
RECURSIVE FDiffAll(_, _, _, _)
FDiffAll(axes, f, d, i) == IF i > Len(d) THEN f ELSE FDiffAll(axes, FDiffN(axes, f, i, d[i]), d, i + 1)
(* multiplication with x_i^e (bounded axes)                                *)
XPow(e) == [i \in 1..(e + 1) |-> IF i = e + 1 THEN ROne ELSE RZero]
FMono(f, e) == [j \in 1..Len(f) |-> [f[j] EXCEPT !.fac = [i \in 1..Len(e) |-> [k |-> @[i].k, p |-> PMul(XPow(e[i]), @[i].p)]]]]
(* values: at X = m pi/2 on periodic axes, at rational points on others    *)
IPow(m) == CASE m % 4 = 0 -> <<1, 0>> [] m % 4 = 1 -> <<0, 1>> [] m % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
CMul(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
TEval(axes, t, pt) ==
  FoldLeft(LAMBDA acc, i : CMul(acc, IF IsF(axes[i]) THEN IPow(t.fac[i].k * pt[i]) ELSE <<PEval(t.fac[i].p, pt[i]), RZero>>),
           <<t.re, t.im>>, [i \in 1..Len(axes) |-> i])
FEval(axes, f, pt) == FoldLeft(LAMBDA acc, t : LET v == TEval(axes, t, pt) IN <<RAdd(acc[1], v[1]), RAdd(acc[2], v[2])>>, <<RZero, RZero>>, f)
(* integral in units of (2 pi)^(number of periodic axes)                   *)
AxInt(ax, g) == IF IsF(ax) THEN (IF g.k = 0 THEN R(ax.dom[2]) ELSE RZero)
                ELSE LET q == PInt(g.p) IN RSub(PEval(q, ax.dom[2]), PEval(q, ax.dom[1]))
TInt(axes, t) == LET c == FoldLeft(LAMBDA acc, i : RMul(acc, AxInt(axes[i], t.fac[i])), ROne, [i \in 1..Len(axes) |-> i])
                 IN <<RMul(c, t.re), RMul(c, t.im)>>
FInt(axes, f) == FoldLeft(LAMBDA acc, t : LET v == TInt(axes, t) IN <<RAdd(acc[1], v[1]), RAdd(acc[2], v[2])>>, <<RZero, RZero>>, f)
DegOn(f, i) == FoldLeft(LAMBDA m, t : IF Deg(t.fac[i].p) > m THEN Deg(t.fac[i].p) ELSE m, -1, f)
MaxK(f, i) == FoldLeft(LAMBDA m, t : LET a == IF t.fac[i].k < 0 THEN 0 - t.fac[i].k ELSE t.fac[i].k IN IF a > m THEN a ELSE m, 0, f)
Fits(axes, f) == \A i \in 1..Len(axes) : IF IsF(axes[i]) THEN MaxK(f, i) <= Half(axes[i].n) ELSE DegOn(f, i) <= MaxDeg(axes[i])

(* drawing axes and functions                                              *)
BDom == <<<<-1, 1>>, <<0, 1>>, <<-2, 2>>, <<1, 3>>, <<-1, 1>>, <<"-1/2", "1/2">>>>
FDom == <<<<0, 1>>, <<0, 1>>, <<-1, 1>>, <<0, 2>>, <<0, "1/2">>, <<1, "1/2">>>>
DrawAxis(rng, s, k, bcs, nlo, nhi) ==
  LET d == IF k \in {"F", "R"} THEN RndSeq(rng, <<"fd", s>>, FDom) ELSE RndSeq(rng, <<"bd", s>>, BDom)
      bc == IF k \in {"F", "R"} THEN "none" ELSE RndSet(rng, <<"bc", s>>, bcs)
      q == CASE k = "C" -> RndSet(rng, <<"q", s>>, {"GC", "GL"}) [] k = "L" -> RndSet(rng, <<"q", s>>, {"LG", "GL"}) [] OTHER -> ""
  IN [k |-> k, n |-> RndIn(rng, <<"n", s>>, IF k \in {"F", "R"} THEN 4 ELSE IF bc = "DN" THEN nlo + 3 ELSE nlo, IF k \in {"F", "R"} THEN 9 ELSE IF bc = "DN" THEN nhi + 3 ELSE nhi),
      dom |-> <<R(d[1]), R(d[2])>>, bc |-> bc, quad |-> q]
Small == {"0", "1", "-1", "2", "1/2", "-3", "2/3"}
Nonzero == {"1", "-1", "2", "1/2", "-3", "2/3"}
RndPoly(rng, s, d) ==    \* degree at most d, half of the time exactly d, otherwise low
  LET e == IF d < 0 THEN -1 ELSE IF RndBool(rng, <<"full", s>>) THEN d ELSE RndIn(rng, <<"deg", s>>, 0, IF d < 2 THEN d ELSE 2)
  IN IF e < 0 THEN <<>> ELSE [i \in 1..(e + 1) |-> R(RndSet(rng, <<"c", s, i>>, IF i = e + 1 THEN Nonzero ELSE Small))]
Lin(c) == <<RNeg(c), ROne>>      \* x - c
BcPoly(ax) == LET a == Lin(ax.dom[1]) b == Lin(ax.dom[2]) IN
  CASE ax.bc \in {"D", "DI", "N"} -> PMul(a, b) [] ax.bc = "LD" -> a [] ax.bc = "RD" -> b
    [] ax.bc = "DN" -> PMul(PMul(a, b), PMul(a, b)) [] OTHER -> POne
RndBc(rng, s, ax) ==     \* a polynomial with the homogeneous conditions of the axis
  IF ax.bc = "N" THEN RVAdd(<<R(RndSet(rng, <<"n0", s>>, Small))>>, PInt(PMul(BcPoly(ax), RndPoly(rng, s, MaxDeg(ax) - 3))))
  ELSE PMul(BcPoly(ax), RndPoly(rng, s, MaxDeg(ax) - (Len(BcPoly(ax)) - 1)))
RndFac(rng, s, ax) == IF IsF(ax) THEN [k |-> RndIn(rng, <<"k", s>>, 0 - Half(ax.n), Half(ax.n)), p |-> POne]
                      ELSE [k |-> 0, p |-> PTrim(RndBc(rng, s, ax))]
(* a real function when some axis is "R" or all are bounded and not cplx   *)
RndFun(rng, s, axes, cplx, m) ==
  FoldLeft(LAMBDA f, j :
     LET t == [re |-> R(RndSet(rng, <<"re", s, j>>, Nonzero)), im |-> IF cplx \/ \E i \in 1..Len(axes) : IsF(axes[i]) THEN R(RndSet(rng, <<"im", s, j>>, Small)) ELSE RZero,
               fac |-> [i \in 1..Len(axes) |-> RndFac(rng, <<s, j, i>>, axes[i])]]
         u == IF \A i \in 1..Len(axes) : t.fac[i].k = 0 THEN [t EXCEPT !.im = IF cplx THEN @ ELSE RZero] ELSE t
     IN IF cplx THEN FAddTerm(f, u) ELSE IF \A i \in 1..Len(axes) : u.fac[i].k = 0 THEN FAddTerm(f, u) ELSE FAdd(f, <<u, Conj(u)>>),
   FZero, [j \in 1..m |-> j])
RndPoint(rng, s, axes) == [i \in 1..Len(axes) |-> IF IsF(axes[i]) THEN RndIn(rng, <<"pt", s, i>>, 0, 4)
   ELSE RAdd(axes[i].dom[1], RMul(RSub(axes[i].dom[2], axes[i].dom[1]), RndSet(rng, <<"pt", s, i>>, {"0", "1", "1/2", "1/3", "3/4", "2/7"})))]
(* homogeneous boundary conditions of one axis hold for every term         *)
TermBc(ax, p) == LET a == ax.dom[1] b == ax.dom[2] IN
  CASE ax.bc \in {"D", "DI"} -> RIsZero(PEval(p, a)) /\ RIsZero(PEval(p, b))
    [] ax.bc = "LD" -> RIsZero(PEval(p, a)) [] ax.bc = "RD" -> RIsZero(PEval(p, b))
    [] ax.bc = "N" -> RIsZero(PEval(PDiff(p), a)) /\ RIsZero(PEval(PDiff(p), b))
    [] ax.bc = "DN" -> RIsZero(PEval(p, a)) /\ RIsZero(PEval(p, b)) /\ RIsZero(PEval(PDiff(p), a)) /\ RIsZero(PEval(PDiff(p), b))
    [] OTHER -> TRUE
SatBc(axes, f) == \A t \in ToSet(f) : \A i \in 1..Len(axes) : IsF(axes[i]) \/ TermBc(axes[i], t.fac[i].p)
(* numbers of processes over which the space can be distributed, with one  *)
(* bounded axis complete in spectral space if there is any                 *)
PhysOf(ax) == [i \in 1..Len(ax) |-> ax[i].n]
SpecOf(ax) == [i \in 1..Len(ax) |-> IF ax[i].k = "R" THEN ax[i].n \div 2 + 1 ELSE ax[i].n]
Procs(ax, perm, collapse) ==
  LET d == Len(ax) IN
  IF d = 1 \/ ((\E i \in 1..d : ~IsF(ax[i])) /\ IsF(ax[perm[1]])) THEN {1}
  ELSE {p \in 1..4 : LET dims == DefaultDims(p, d, perm[d])
                         gs == IF collapse THEN Groups(Collapsible([i \in 1..d |-> ax[i].k], dims), perm) ELSE Single(perm)
                     IN Admissible(PhysOf(ax), SpecOf(ax), gs, dims)}
=============================================================================
