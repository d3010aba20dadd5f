----------------------------- MODULE WeakForms -----------------------------
(***************************************************************************)
(* Linear problems with an exact solution in the trial space.  State: a    *)
(* tensor product space, linear operators  L = \sum c x^e d^a/dx^a  (or a  *)
(* 2 x 2 system of them), functions of the space, and which operators have *)
(* been assembled.  Transitions assemble an operator, apply the matrices   *)
(* or the linear form to a function, and solve for a function from the     *)
(* exact right hand side L u.  Nothing but the log changes: whatever has   *)
(* been assembled or solved, L u and the solution stay the same.           *)
(***************************************************************************)
EXTENDS Fields, Json
CONSTANTS SEEDS, DIMS, MAXB, NLO, NHI, STEPS, REGS, TERMS, CLASSES

VARIABLES rng, axes, perm, cplx, lift, reg, forms, hist
vars == <<rng, axes, perm, cplx, lift, reg, forms, hist>>

Fams == <<"C", "L", "C", "L", "U", "Q">>
Bcs(cl) == CASE cl = "bih" -> {"DN"} [] cl = "first" -> {"LD", "RD"} [] cl = "poisson" -> {"D", "D", "DI"}
             [] cl = "neumann" -> {"N"} [] OTHER -> {"D", "D", "DN", "LD", "RD", "N"}
DrawAxes(r, cl) ==
  LET d == RndSet(r, "dim", DIMS)
      nb0 == RndIn(r, "nb", 0, IF d < MAXB THEN d ELSE MAXB)
      nb == IF cl \in {"bih", "first", "neumann"} /\ nb0 = 0 THEN 1 ELSE IF cl = "first" \/ cl = "neumann" THEN 1 ELSE nb0
      h(i) == Rnd(r, <<"which", i>>, 1000) * 10 + i
      bounded == {i \in 1..d : Cardinality({j \in 1..d : h(j) < h(i)}) < nb}
      fs == {i \in 1..d : i \notin bounded}
      rax == IF RndIn(r, "real", 0, 3) > 0 /\ fs # {} THEN RndSet(r, "rax", fs) ELSE 0
      inh == IF nb = 1 /\ cl \notin {"bih", "first", "neumann"} /\ RndIn(r, "inh", 0, 2) = 0 THEN RndSet(r, "inhax", bounded) ELSE 0
  IN [i \in 1..d |->
        DrawAxis(r, i, IF i \in bounded THEN RndSeq(r, <<"fam", i>>, Fams) ELSE IF i = rax THEN "R" ELSE "F",
                 IF i = inh THEN {"DI"} ELSE Bcs(cl) \ {"DI"}, NLO, NHI)]
RAx(ax) == {i \in 1..Len(ax) : ax[i].k = "R"}
DrawPerm(r, ax) ==
  LET d == Len(ax)
      key(i) == IF i \in RAx(ax) THEN 10000 ELSE Rnd(r, <<"perm", i>>, IF ax[i].k = "F" THEN 1000 ELSE 2000) * 10 + i
  IN [j \in 1..d |-> CHOOSE i \in 1..d : Cardinality({l \in 1..d : key(l) < key(i)}) = j - 1]
InhAx == {i \in 1..Len(axes) : axes[i].bc = "DI"}
(* room for variable coefficients: the functions have degree n - 3 at most *)
Slim(ax) == [i \in 1..Len(ax) |-> IF IsF(ax[i]) THEN ax[i] ELSE [ax[i] EXCEPT !.n = @ - 2]]
RndSide(r, s, ax, c) == RndFun(r, s, [i \in 1..Len(ax) |-> IF ax[i].bc = "DI" THEN [ax[i] EXCEPT !.n = 1, !.quad = "", !.bc = "none"] ELSE ax[i]], c, 1)
DrawLift(r, ax, c) ==
  IF \A i \in 1..Len(ax) : ax[i].bc # "DI" THEN [left |-> FZero, right |-> FZero]
  ELSE [left |-> RndSide(r, "left", Slim(ax), c), right |-> RndSide(r, "right", Slim(ax), c)]
LiftOf(ax, lf) ==
  LET ih == {i \in 1..Len(ax) : ax[i].bc = "DI"} IN
  IF ih = {} THEN FZero
  ELSE LET i == CHOOSE i \in ih : TRUE
           a == ax[i].dom[1] b == ax[i].dom[2] w == RDiv(1, RSub(b, a))
           L == [j \in 1..Len(lf.left) |-> [lf.left[j] EXCEPT !.fac[i].p = PMul(@, <<RMul(w, b), RNeg(w)>>)]]
           RR == [j \in 1..Len(lf.right) |-> [lf.right[j] EXCEPT !.fac[i].p = PMul(@, <<RNeg(RMul(w, a)), w>>)]]
       IN FAdd(L, RR)

(* operators: sequences of pieces [c, d, e]                                *)
Zeros(ax) == [i \in 1..Len(ax) |-> 0]
Unit(ax, i, m) == [j \in 1..Len(ax) |-> IF j = i THEN m ELSE 0]
P3(c, d, e) == [c |-> R(c), d |-> d, e |-> e]
Pos == {"1", "2", "1/2", "3"}
Lap(r, s, ax, same) == [i \in 1..Len(ax) |-> P3(RNeg(IF same THEN ROne ELSE RndSet(r, <<"b", s, i>>, Pos)), Unit(ax, i, 2), Zeros(ax))]
Mass(r, s, ax) == <<P3(RndSet(r, <<"a", s>>, Pos), Zeros(ax), Zeros(ax))>>
FirstOrder(r, s, ax) == LET i == RndIn(r, <<"ad", s>>, 1, Len(ax)) IN <<P3(RndSet(r, <<"adc", s>>, {"1", "-1", "1/2"}), Unit(ax, i, 1), Zeros(ax))>>
Bounded(ax) == {i \in 1..Len(ax) : ~IsF(ax[i])}
Bilap(ax) == FoldLeft(LAMBDA acc, i : acc \o [j \in 1..Len(ax) |-> P3(1, [l \in 1..Len(ax) |-> (IF l = i THEN 2 ELSE 0) + (IF l = j THEN 2 ELSE 0)], Zeros(ax))],
                      <<>>, [i \in 1..Len(ax) |-> i])
Variable(r, s, ax) ==
  IF Bounded(ax) = {} THEN <<>>
  ELSE LET i == RndSet(r, <<"vx", s>>, Bounded(ax)) IN
       <<P3(RndSet(r, <<"vc", s>>, {"1", "1/2", "2"}), Unit(ax, i, RndIn(r, <<"vd", s>>, 0, 1)), Unit(ax, i, RndIn(r, <<"ve", s>>, 1, 2)))>>
DrawForm(r, s, ax, cl) ==
  CASE cl \in {"poisson", "neumann"} -> [cl |-> cl, ps |-> Lap(r, s, ax, TRUE), weak |-> RndBool(r, <<"weak", s>>)]
    [] cl = "helm" -> [cl |-> cl, ps |-> Mass(r, s, ax) \o Lap(r, s, ax, RndBool(r, <<"same", s>>)), weak |-> RndBool(r, <<"weak", s>>)]
    [] cl = "bih" -> [cl |-> cl, ps |-> (IF RndBool(r, <<"m", s>>) THEN Mass(r, s, ax) ELSE <<>>) \o (IF RndBool(r, <<"l", s>>) THEN Lap(r, s, ax, TRUE) ELSE <<>>) \o Bilap(ax), weak |-> FALSE]
    [] cl = "adv" -> [cl |-> cl, ps |-> Mass(r, s, ax) \o Lap(r, s, ax, TRUE) \o FirstOrder(r, s, ax), weak |-> FALSE]
    [] cl = "first" -> [cl |-> cl, ps |-> Mass(r, s, ax) \o FirstOrder(r, s, ax), weak |-> FALSE]
    [] OTHER -> [cl |-> cl, ps |-> Mass(r, s, ax) \o Lap(r, s, ax, TRUE) \o Variable(r, s, ax), weak |-> FALSE]
Apply(ps, u) == FoldLeft(LAMBDA f, p : FAdd(f, FScale(p.c, FMono(FDiffAll(axes, u, p.d, 1), p.e))), FZero, ps)

Init == /\ rng \in SEEDS
        /\ LET cl == RndSet(rng, "class", CLASSES) IN
             /\ axes = DrawAxes(rng, cl)
             /\ forms = [k \in 1..2 |-> DrawForm(rng, k, axes, IF k = 1 \/ cl \in {"neumann", "bih", "first"} THEN cl ELSE RndSet(rng, "class2", {"helm", "adv", "var"}))]
        /\ perm = DrawPerm(rng, axes)
        /\ cplx = (RAx(axes) = {} /\ (\E i \in 1..Len(axes) : IsF(axes[i])))
        /\ lift = DrawLift(rng, axes, cplx)
        /\ reg = [k \in 1..REGS |-> FAdd(RndFun(rng, <<"init", k>>, Slim(axes), cplx, RndIn(rng, <<"m", k>>, 1, TERMS)), LiftOf(axes, lift))]
        /\ hist = <<[op |-> "space", axes |-> axes, perm |-> perm, cplx |-> cplx, lift |-> lift, collapse |-> RndBool(rng, "collapse"), procs |-> Procs(axes, perm, RndBool(rng, "collapse")),
                     forms |-> forms, reg |-> reg,
                     cross |-> [c12 |-> RndSet(rng, "c12", {"1", "-1", "1/2"}), c21 |-> RndSet(rng, "c21", {"1", "-1", "1/2"}), ax |-> RndIn(rng, "cax", 1, Len(axes))]]>>
S == Len(hist)
Log(r) == hist' = Append(hist, r)
K == RndIn(rng, <<"k", S>>, 1, 2)
J == RndIn(rng, <<"j", S>>, 1, REGS)
J2 == RndIn(rng, <<"j2", S>>, 1, REGS)
Assemble == Log([op |-> "assemble", k |-> K, kind |-> RndSet(rng, <<"kind", S>>, {"default", "default", "vandermonde"})])
ApplyM == Log([op |-> "apply", k |-> K, j |-> J, f |-> Apply(forms[K].ps, reg[J])])
Linear == Log([op |-> "linear", k |-> K, j |-> J, f |-> Apply(forms[K].ps, reg[J]), how |-> RndSet(rng, <<"lh", S>>, {"function", "array", "sympy"})])
SolveP == Log([op |-> "solve", k |-> K, j |-> J, f |-> Apply(forms[K].ps, reg[J]),
               style |-> RndSet(rng, <<"st", S>>, {"out", "inplace", "fresh", "again"}), rhs |-> RndSet(rng, <<"rh", S>>, {"function", "array", "sympy"})])
(* the system  [ L1   c12 d/dx ] [u]   ;  its right hand sides             *)
(*             [ c21  L2       ] [v]                                       *)
System == LET h == hist[1].cross
              x12 == FScale(h.c12, FDiff(axes, reg[J2], h.ax))
              x21 == FScale(h.c21, reg[J])
          IN Log([op |-> "system", j |-> J, j2 |-> J2, f |-> FAdd(Apply(forms[1].ps, reg[J]), x12), g |-> FAdd(Apply(forms[2].ps, reg[J2]), x21),
                  style |-> RndSet(rng, <<"st", S>>, {"out", "again"})])
Ops == <<"assemble", "apply", "apply", "linear", "solve", "solve", "solve", "system">>
Op == RndSeq(rng, <<"op", S>>, Ops)
Next == /\ S <= STEPS
        /\ CASE Op = "assemble" -> Assemble [] Op = "apply" -> ApplyM [] Op = "linear" -> Linear [] Op = "solve" -> SolveP
             [] Op = "system" -> (IF Bounded(axes) = {} \/ forms[1].cl \in {"neumann"} THEN SolveP ELSE System)
        /\ UNCHANGED <<rng, axes, perm, cplx, lift, reg, forms>>
Spec == Init /\ [][Next]_vars

(* ---- checked by TLC ---------------------------------------------------- *)
(* Green: \int w Lap u = \int u Lap w for functions with homogeneous Dirichlet (or Neumann, periodic) conditions *)
LapOf(u) == FoldLeft(LAMBDA f, i : FAdd(f, FDiffN(axes, u, i, 2)), FZero, [i \in 1..Len(axes) |-> i])
Green == (S = 1 /\ reg[1] # <<>> /\ reg[REGS] # <<>> /\ \A i \in 1..Len(axes) : IsF(axes[i]) \/ axes[i].bc \in {"D", "DN", "N"}) =>
   LET f == SubSeq(reg[1], 1, 1) g == SubSeq(reg[REGS], 1, 1) IN FInt(axes, FMul(f, LapOf(g))) = FInt(axes, FMul(g, LapOf(f)))
(* the right hand side is represented by the space's quadrature            *)
RhsFits == \A k \in 1..2 : \A j \in 1..REGS : Fits(axes, Apply(forms[k].ps, reg[j]))
(* linearity of the operators                                              *)
LinearOk == S = 1 => \A k \in 1..2 : FEval(axes, Apply(forms[k].ps, FAdd(reg[1], FScale(2, reg[REGS]))), RndPoint(rng, "lp", axes))
   = FEval(axes, FAdd(Apply(forms[k].ps, reg[1]), FScale(2, Apply(forms[k].ps, reg[REGS]))), RndPoint(rng, "lp", axes))
Emit == S = STEPS + 1 => PrintT(ToJson([steps |-> hist]))
=============================================================================
