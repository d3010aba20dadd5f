------------------------------ MODULE Calculus ------------------------------
(***************************************************************************)
(* The calculus of functions on a tensor product space.  Registers hold    *)
(* functions of the space ("T", with its boundary conditions) or of the    *)
(* orthogonal space of the same axes ("O"); operations give the exact      *)
(* result and change one register at most.                                 *)
(***************************************************************************)
EXTENDS Fields, Json
CONSTANTS SEEDS, DIMS, MAXB, NLO, NHI, STEPS, REGS, TERMS

VARIABLES rng, axes, perm, cplx, lift, reg, tag, hist
vars == <<rng, axes, perm, cplx, lift, reg, tag, hist>>

Fams == <<"C", "L", "C", "L", "U", "Q">>
DrawAxes(r) ==
  LET d == RndSet(r, "dim", DIMS)
      nb == RndIn(r, "nb", 0, IF d < MAXB THEN d ELSE MAXB)
      \* which axes are bounded: the nb axes with the smallest hash
      h(i) == Rnd(r, <<"which", i>>, 1000) * 10 + i
      bounded == {i \in 1..d : Cardinality({j \in 1..d : h(j) < h(i)}) < nb}
      real == RndIn(r, "real", 0, 3) > 0
      fs == {i \in 1..d : i \notin bounded}
      rax == IF real /\ fs # {} THEN RndSet(r, "rax", fs) ELSE 0
      inh == IF bounded # {} /\ RndIn(r, "inh", 0, 3) = 0 THEN RndSet(r, "inhax", bounded) ELSE 0
  IN [i \in 1..d |->
        DrawAxis(r, i, IF i \in bounded THEN RndSeq(r, <<"fam", i>>, Fams) ELSE IF i = rax THEN "R" ELSE "F",
                 IF i = inh THEN {"DI"} ELSE IF inh # 0 THEN {"none"} ELSE {"none", "D", "D", "DN", "LD", "RD", "N"}, NLO, NHI)]
RAx(ax) == {i \in 1..Len(ax) : ax[i].k = "R"}
(* order of the transforms, the last one first: the real axis before the complex ones *)
DrawPerm(r, ax) ==
  LET d == Len(ax)
      key(i) == IF i \in RAx(ax) THEN 10000 ELSE Rnd(r, <<"perm", i>>, IF ax[i].k = "F" THEN 1000 ELSE 2000) * 10 + i
  IN [j \in 1..d |-> CHOOSE i \in 1..d : Cardinality({l \in 1..d : key(l) < key(i)}) = j - 1]
InhAx == {i \in 1..Len(axes) : axes[i].bc = "DI"}
HomOf(ax) == [i \in 1..Len(ax) |-> IF ax[i].bc = "DI" THEN [ax[i] EXCEPT !.bc = "const"] ELSE ax[i]]
(* boundary values: functions of the other axes (degree 0 on the inhomogeneous one)  *)
RndSide(r, s, ax) == LET f == RndFun(r, s, [i \in 1..Len(ax) |-> IF ax[i].bc = "DI" THEN [ax[i] EXCEPT !.n = 1, !.quad = "", !.bc = "none"] ELSE ax[i]], cplx', 1)
                     IN f
DrawLift(r, ax) ==
  IF \A i \in 1..Len(ax) : ax[i].bc # "DI" THEN [left |-> FZero, right |-> FZero]
  ELSE [left |-> RndSide(r, "left", ax), right |-> RndSide(r, "right", ax)]
LiftFun ==   \* left * (b - x)/(b - a) + right * (x - a)/(b - a)
  IF InhAx = {} THEN FZero
  ELSE LET i == CHOOSE i \in InhAx : TRUE
           a == axes[i].dom[1] b == axes[i].dom[2] w == RDiv(1, RSub(b, a))
           L == [j \in 1..Len(lift.left) |-> [lift.left[j] EXCEPT !.fac[i].p = PMul(@, <<RMul(w, b), RNeg(w)>>)]]
           RR == [j \in 1..Len(lift.right) |-> [lift.right[j] EXCEPT !.fac[i].p = PMul(@, <<RNeg(RMul(w, a)), w>>)]]
       IN FAdd(L, RR)
Draw(s) == FAdd(RndFun(rng, s, axes, cplx, RndIn(rng, <<"m", s>>, 1, TERMS)), LiftFun)

Spc == /\ rng \in SEEDS
       /\ axes = DrawAxes(rng)
       /\ perm = DrawPerm(rng, axes)
       /\ cplx = (RAx(axes) = {} /\ (\E i \in 1..Len(axes) : IsF(axes[i])))
       /\ reg = <<>> /\ tag = <<>> /\ lift = [left |-> FZero, right |-> FZero] /\ hist = <<>>
Init == Spc
S == Len(hist)
Log(r) == hist' = Append(hist, r)
ToLift == /\ hist = <<>>
          /\ cplx' = cplx
          /\ lift' = DrawLift(rng, axes)
          /\ Log([op |-> "space", axes |-> axes, perm |-> perm, cplx |-> cplx, lift |-> lift', collapse |-> RndBool(rng, "collapse"),
                procs |-> Procs(axes, perm, RndBool(rng, "collapse"))])
          /\ UNCHANGED <<rng, axes, perm, reg, tag>>
Start == /\ S = 1
         /\ LET f == [k \in 1..REGS |-> Draw(<<"init", k>>)] IN
              /\ reg' = f /\ tag' = [k \in 1..REGS |-> "T"]
              /\ Log([op |-> "start", reg |-> f, how |-> [k \in 1..REGS |-> RndSet(rng, <<"how0", k>>, {"values", "sympy", "project", "set"})]])
         /\ UNCHANGED <<rng, axes, perm, cplx, lift>>

Tgt == RndIn(rng, <<"t", S>>, 1, REGS)
Src == RndIn(rng, <<"s", S>>, 1, REGS)
Src2 == LET j == RndIn(rng, <<"s2", S>>, 1, REGS) IN IF tag[j] = tag[Src] THEN j ELSE Src
Put(t, f, g) == reg' = [reg EXCEPT ![t] = f] /\ tag' = [tag EXCEPT ![t] = g]
Keep == UNCHANGED <<reg, tag>>
Coef(s) == R(RndSet(rng, <<"cf", S, s>>, {"1", "-1", "2", "1/2", "-3"}))

Set == LET f == Draw(<<"set", S>>) IN
  /\ Put(Tgt, f, "T") /\ Log([op |-> "set", t |-> Tgt, f |-> f, how |-> RndSet(rng, <<"how", S>>, {"values", "sympy", "project", "set"})])
LinC == LET c1 == Coef(1)
            affine == InhAx # {} /\ tag[Src] = "T"
            c2 == IF affine THEN RSub(1, c1) ELSE Coef(2)
            style == RndSet(rng, <<"ls", S>>, {"new", "inplace", "array"})
        IN /\ Put(Tgt, FAdd(FScale(c1, reg[Src]), FScale(c2, reg[Src2])), tag[Src])
           /\ Log([op |-> "lin", t |-> Tgt, s |-> Src, s2 |-> Src2, c1 |-> c1, c2 |-> c2, style |-> style, tag |-> tag[Src]])
(* a sum of pieces  c x^e d^a/dx^a u , projected to the orthogonal space   *)
PieceOf(p) ==
  LET u == RndIn(rng, <<"pu", S>>, 1, REGS)
      d == [i \in 1..Len(axes) |-> IF RndIn(rng, <<"dq", S, p, i>>, 0, 2) = 0 THEN RndIn(rng, <<"d", S, p, i>>, 1, 3) ELSE 0]
      g == FDiffAll(axes, reg[u], d, 1)
      e == [i \in 1..Len(axes) |-> IF IsF(axes[i]) THEN 0
              ELSE LET w == RndSeq(rng, <<"e", S, p, i>>, <<0, 0, 1, 2>>) IN IF DegOn(g, i) + w <= MaxDeg(axes[i]) THEN w ELSE 0]
  IN [u |-> u, d |-> d, e |-> e, c |-> Coef(<<"p", p>>), f |-> FScale(Coef(<<"p", p>>), FMono(g, e))]
Pieces == LET m == RndIn(rng, <<"np", S>>, 1, 3) IN [p \in 1..m |-> PieceOf(p)]
PSum(ps) == FoldLeft(LAMBDA f, q : FAdd(f, q.f), FZero, ps)
Bare(ps) == [p \in 1..Len(ps) |-> [u |-> ps[p].u, d |-> ps[p].d, e |-> ps[p].e, c |-> ps[p].c]]
ExprP == LET ps == Pieces IN
  /\ Put(Tgt, PSum(ps), "O")
  /\ Log([op |-> "expr", t |-> Tgt, ps |-> Bare(ps), f |-> PSum(ps), style |-> RndSet(rng, <<"es", S>>, {"project", "output", "sub", "neg"})])
DxP == LET d == [i \in 1..Len(axes) |-> RndSeq(rng, <<"dd", S, i>>, <<0, 1, 0, 2, 1, 4>>)] IN
  /\ Put(Tgt, FDiffAll(axes, reg[Src], d, 1), "O")
  /\ Log([op |-> "expr", t |-> Tgt, ps |-> <<[u |-> Src, d |-> d, e |-> [i \in 1..Len(axes) |-> 0], c |-> ROne]>>, f |-> FDiffAll(axes, reg[Src], d, 1),
          style |-> RndSet(rng, <<"es", S>>, {"project", "output"})])
Up == /\ Put(Tgt, reg[Src], "O")
      /\ Log([op |-> "up", t |-> Tgt, s |-> Src, how |-> RndSet(rng, <<"up", S>>, {"to_ortho", "to_ortho", "project", "noto"})])
Down == /\ (SatBc(axes, reg[Src]) /\ InhAx = {}) = TRUE
        /\ Put(Tgt, reg[Src], "T")
        /\ Log([op |-> "down", t |-> Tgt, s |-> Src])
Again == /\ Put(Tgt, reg[Src], tag[Src])
         /\ Log([op |-> "again", t |-> Tgt, s |-> Src, how |-> RndSet(rng, <<"ag", S>>, {"roundtrip", "copy", "expr", "kinds"})])
Point == LET m == RndIn(rng, <<"npts", S>>, 1, 3)
             pts == [j \in 1..m |-> RndPoint(rng, <<S, j>>, axes)]
         IN /\ Keep /\ Log([op |-> "eval", s |-> Src, pts |-> pts, vals |-> [j \in 1..m |-> FEval(axes, reg[Src], pts[j])],
                            how |-> RndSet(rng, <<"ev", S>>, {"eval", "call", "output", "expr", "m0", "m1", "m2"})])
EvalE == LET ps == Pieces f == PSum(ps)
             pts == [j \in 1..2 |-> RndPoint(rng, <<S, j>>, axes)]
         IN /\ Keep /\ Log([op |-> "evalexpr", ps |-> Bare(ps), pts |-> pts, vals |-> [j \in 1..2 |-> FEval(axes, f, pts[j])]])
Mesh == /\ Keep /\ Log([op |-> "mesh", s |-> Src, f |-> reg[Src], mesh |-> RndSet(rng, <<"me", S>>, {"quadrature", "uniform"}),
                        kind |-> RndSet(rng, <<"ki", S>>, {"default", "vandermonde", "recursive"})])
Integral == /\ Keep /\ Log([op |-> "int", s |-> Src, v |-> FInt(axes, reg[Src]), c |-> Coef("int"), how |-> RndSet(rng, <<"in", S>>, {"array", "function", "right"})])
Other == /\ Keep /\ Log([op |-> "other", s |-> Src, fams |-> [i \in 1..Len(axes) |-> IF IsF(axes[i]) THEN axes[i].k ELSE RndSeq(rng, <<"of", S, i>>, Fams)]])

Ops == <<"set", "lin", "lin", "expr", "expr", "dx", "dx", "up", "down", "again", "eval", "eval", "evalexpr", "mesh", "int", "other">>
Big(f) == Len(f) > 12
Op == IF \E k \in 1..REGS : Big(reg[k]) /\ k = Tgt THEN "set" ELSE RndSeq(rng, <<"op", S>>, Ops)
Next == \/ ToLift
        \/ Start
        \/ /\ S >= 2 /\ S < STEPS + 2
           /\ CASE Op = "set" -> Set [] Op = "lin" -> LinC [] Op = "expr" -> ExprP [] Op = "dx" -> DxP
                [] Op = "up" -> Up [] Op = "down" -> (IF SatBc(axes, reg[Src]) /\ InhAx = {} THEN Down ELSE Again)
                [] Op = "again" -> Again [] Op = "eval" -> Point [] Op = "evalexpr" -> EvalE [] Op = "mesh" -> Mesh
                [] Op = "int" -> Integral [] Op = "other" -> Other
           /\ UNCHANGED <<rng, axes, perm, cplx, lift>>
Spec == Init /\ [][Next]_vars

(* ---- the calculus itself, checked by TLC ------------------------------ *)
Regs == IF S < 2 THEN {} ELSE 1..REGS
FEq(f, g) == FSub(f, g) = FZero
(* equality of sums of products: at exact points                           *)
Same(f, g) == \A j \in 1..3 : LET pt == RndPoint(rng, <<"same", j>>, axes) IN FEval(axes, f, pt) = FEval(axes, g, pt)
Commute == \A k \in Regs : \A i, j \in 1..Len(axes) : i < j => FEq(FDiff(axes, FDiff(axes, reg[k], i), j), FDiff(axes, FDiff(axes, reg[k], j), i))
(* d(fg) = df g + f dg, on the first term of two registers                 *)
Leibniz == (S = 2 /\ reg[1] # <<>> /\ reg[REGS] # <<>>) => LET f == SubSeq(reg[1], 1, 1) g == SubSeq(reg[REGS], 1, 1) IN
   \A i \in 1..Len(axes) : Same(FDiff(axes, FMul(f, g), i), FAdd(FMul(FDiff(axes, f, i), g), FMul(f, FDiff(axes, g, i))))
(* the integral of a derivative is the boundary difference: zero for periodic axes and for functions that vanish at both ends *)
Stokes == \A k \in Regs : \A i \in 1..Len(axes) :
   (IsF(axes[i]) \/ (axes[i].bc \in {"D", "DN"} /\ tag[k] = "T")) => FInt(axes, FDiff(axes, reg[k], i)) = <<RZero, RZero>>
InSpace == \A k \in Regs : Fits(axes, reg[k]) /\ (tag[k] = "T" => SatBc(HomOf(axes), FSub(reg[k], LiftFun)))
RealOk == cplx \/ \A k \in Regs : \A t \in ToSet(reg[k]) : \E u \in ToSet(reg[k]) : u = Conj(t) \/ SameFac(u, Conj(t))
OneReg == [][Cardinality({k \in Regs : reg'[k] # reg[k]}) <= 1 \/ reg = <<>>]_vars
Done == S = STEPS + 2
Emit == Done => PrintT(ToJson([steps |-> hist]))
=============================================================================
