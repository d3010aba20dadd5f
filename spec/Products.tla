------------------------------ MODULE Products ------------------------------
(***************************************************************************)
(* Products of functions, computed on meshes.  A function is a finite sum  *)
(* of modes as in Resizing: signed wavenumbers on periodic axes, numbers of *)
(* orthogonal polynomials (kinds C, U, L) on bounded ones.  The product of  *)
(* two modes is a finite sum of modes.  On M points a wavenumber k cannot   *)
(* be told from k - M: what a mesh computation gives is the exact product   *)
(* with its wavenumbers folded, of which the space then keeps its modes.    *)
(* On a bounded axis of M points the coefficient j of a polynomial of       *)
(* degree d is exact when d + j <= 2M - 1.                                  *)
(***************************************************************************)
EXTENDS Fields, Json
CONSTANTS SEEDS, DIMS, REGS, STEPS

VARIABLES rng, axes, perm, cplx, rank, reg, hist
vars == <<rng, axes, perm, cplx, rank, reg, hist>>
Fams == <<"C", "L", "U">>
RAx(ax) == {i \in 1..Len(ax) : ax[i].k = "R"}
DrawAxes(r) ==
  LET d == RndSet(r, "dim", DIMS)
      nb == RndIn(r, "nb", 0, IF d < 2 THEN d ELSE 2)
      h(i) == Rnd(r, <<"which", i>>, 1000) * 10 + i
      bounded == {i \in 1..d : Cardinality({j \in 1..d : h(j) < h(i)}) < nb}
      fs == {i \in 1..d : i \notin bounded}
      rax == IF RndIn(r, "real", 0, 3) > 0 /\ fs # {} THEN RndSet(r, "rax", fs) ELSE 0
      ax(i) == DrawAxis(r, i, IF i \in bounded THEN RndSeq(r, <<"fam", i>>, Fams) ELSE IF i = rax THEN "R" ELSE "F", {"none"}, 3, 8)
  IN [i \in 1..d |-> [ax(i) EXCEPT !.quad = CASE @ = "GL" /\ ax(i).k = "C" -> "GC" [] @ = "GL" /\ ax(i).k = "L" -> "LG" [] OTHER -> @,
                                   !.n = IF IsF(ax(i)) /\ RndIn(r, <<"big", i>>, 0, 2) = 0 THEN @ + 5 ELSE @]]
DrawPerm(r, ax) ==
  LET d == Len(ax)
      key(i) == IF i \in RAx(ax) THEN 10000 ELSE Rnd(r, <<"perm", i>>, IF ax[i].k = "F" THEN 1000 ELSE 2000) * 10 + i
  IN [j \in 1..d |-> CHOOSE i \in 1..d : Cardinality({l \in 1..d : key(l) < key(i)}) = j - 1]
Size == [i \in 1..Len(axes) |-> axes[i].n]

(* ---- modes --------------------------------------------------------------- *)
Neg(m) == [i \in 1..Len(m) |-> IF IsF(axes[i]) THEN 0 - m[i] ELSE m[i]]
Add(f, t) ==
  LET w == {i \in 1..Len(f) : f[i].m = t.m} IN
  IF RIsZero(t.re) /\ RIsZero(t.im) THEN f
  ELSE IF w = {} THEN Append(f, t)
  ELSE LET i == CHOOSE i \in w : TRUE
           u == TLCEval([f[i] EXCEPT !.re = RAdd(@, t.re), !.im = RAdd(@, t.im)])
       IN IF RIsZero(u.re) /\ RIsZero(u.im) THEN RemoveAt(f, i) ELSE [f EXCEPT ![i] = u]
Sum(f, g) == FoldLeft(LAMBDA acc, t : TLCEval(Add(acc, t)), f, g)
AbsI(k) == IF k < 0 THEN 0 - k ELSE k
Cut(f, i, n) ==     \* the part of f that n points on axis i hold, symmetric at the Nyquist mode
  IF ~IsF(axes[i]) THEN SelectSeq(f, LAMBDA t : t.m[i] < n)
  ELSE FoldLeft(LAMBDA acc, t :
         LET k == t.m[i] a == AbsI(k) IN
         IF 2 * a > n THEN acc
         ELSE IF 2 * a < n THEN TLCEval(Add(acc, t))
         ELSE LET h == TLCEval([t EXCEPT !.re = RDiv(@, 2), !.im = RDiv(@, 2)]) IN TLCEval(Add(Add(acc, h), [h EXCEPT !.m[i] = 0 - k])),
       <<>>, f)
RECURSIVE CutAll(_, _, _)
CutAll(f, z, i) == IF i > Len(z) THEN f ELSE CutAll(TLCEval(Cut(f, i, z[i])), z, i + 1)
Resize(f, z) == CutAll(f, z, 1)
Wrap(k, n) == IF k >= 0 THEN k ELSE k + n
(* the coefficient array of z points: index -> value (nonzero entries)      *)
Stored(f, z) ==
  LET g == Resize(f, z)
      keep == SelectSeq(g, LAMBDA t : \A i \in RAx(axes) : t.m[i] >= 0 \/ 0 - 2 * t.m[i] = z[i])
      ind(t) == [i \in 1..Len(z) |-> IF IsF(axes[i]) THEN Wrap(t.m[i], z[i]) ELSE t.m[i]]
  IN FoldLeft(LAMBDA acc, t : TLCEval(Add(acc, [t EXCEPT !.m = ind(t)])), <<>>, keep)

(* ---- products of modes ----------------------------------------------------- *)
MinI(a, b) == IF a < b THEN a ELSE b
ALeg == TLCEval([r \in 0..40 |-> LET RECURSIVE go(_) go(j) == IF j = 0 THEN ROne ELSE RMul(go(j - 1), RDiv(2 * j - 1, 2 * j)) IN TLCEval(go(r))])
BMul(ax, m, n) ==   \* sequence of <<mode, factor>>
  CASE IsF(ax) -> <<<<m + n, ROne>>>>
    [] ax.k = "C" -> <<<<m + n, R("1/2")>>, <<AbsI(m - n), R("1/2")>>>>
    [] ax.k = "U" -> [j \in 1..(MinI(m, n) + 1) |-> <<AbsI(m - n) + 2 * (j - 1), ROne>>]
    [] OTHER -> [j \in 1..(MinI(m, n) + 1) |-> LET r == j - 1 IN
         <<m + n - 2 * r, RMul(RDiv(RMul(ALeg[r], RMul(ALeg[m - r], ALeg[n - r])), ALeg[m + n - r]), RDiv(2 * (m + n - 2 * r) + 1, 2 * (m + n - r) + 1))>>]
RECURSIVE TProd(_, _, _, _)
TProd(acc, s, t, i) ==   \* acc: terms whose modes on axes < i are done
  IF i > Len(axes) THEN acc
  ELSE LET b == TLCEval(BMul(axes[i], s.m[i], t.m[i])) IN
       TProd(TLCEval(FoldLeft(LAMBDA out, u : out \o [j \in 1..Len(b) |-> TLCEval([u EXCEPT !.m[i] = b[j][1], !.re = RMul(@, b[j][2]), !.im = RMul(@, b[j][2])])], <<>>, acc)), s, t, i + 1)
Prod1(s, t) == TProd(<<[m |-> s.m, re |-> RSub(RMul(s.re, t.re), RMul(s.im, t.im)), im |-> RAdd(RMul(s.re, t.im), RMul(s.im, t.re))]>>, s, t, 1)
Prod(f, g) == FoldLeft(LAMBDA acc, s : TLCEval(FoldLeft(LAMBDA a2, t : TLCEval(Sum(a2, Prod1(s, t))), acc, g)), <<>>, f)
(* what M points see: wavenumbers in -M/2..M/2                              *)
Fold1(k, m) == LET r == (k + 8 * m) % m IN IF 2 * r > m THEN r - m ELSE r
Fold(f, M) == FoldLeft(LAMBDA acc, t : TLCEval(Add(acc, [t EXCEPT !.m = [i \in 1..Len(M) |-> IF IsF(axes[i]) THEN Fold1(@[i], M[i]) ELSE @[i]]])), <<>>, f)
DegOf(f, i) == FoldLeft(LAMBDA a, t : IF t.m[i] > a THEN t.m[i] ELSE a, 0, f)
(* highest coefficient on each axis that M points give exactly              *)
Top(f, M, z) == [i \in 1..Len(M) |-> IF IsF(axes[i]) THEN z[i] ELSE MinI(z[i], 2 * M[i] - DegOf(f, i))]
(* 2/3 rule                                                                  *)
Direct(f) == SelectSeq(f, LAMBDA t : \A i \in 1..Len(axes) : IF IsF(axes[i]) THEN AbsI(t.m[i]) < axes[i].n \div 3 ELSE t.m[i] < (2 * axes[i].n) \div 3)
Unmasked(f) == SelectSeq(f, LAMBDA t : \A i \in 1..Len(axes) : ~IsF(axes[i]) \/ 2 * AbsI(t.m[i]) # axes[i].n)

(* ---- drawing --------------------------------------------------------------- *)
Val(s) == RndSet(rng, <<"v", s>>, {"1", "-1", "2", "1/2", "-3"})
Val0(s) == RndSet(rng, <<"w", s>>, {"0", "1", "-1", "1/2"})
HasF == \E i \in 1..Len(axes) : IsF(axes[i])
Mode(s) == [i \in 1..Len(axes) |-> IF IsF(axes[i])
              THEN IF RndIn(rng, <<"edge", s, i>>, 0, 3) = 0 THEN RndSet(rng, <<"es", s, i>>, {-1, 1}) * (axes[i].n \div RndIn(rng, <<"ed", s, i>>, 2, 3))
                   ELSE RndIn(rng, <<"k", s, i>>, 0 - (axes[i].n \div 2), axes[i].n \div 2)
              ELSE RndIn(rng, <<"j", s, i>>, 0, axes[i].n - 1)]
DrawF(s) ==
  LET one(j) == [m |-> Mode(<<s, j>>), re |-> R(Val(<<s, j>>)), im |-> IF HasF THEN R(Val0(<<s, j>>)) ELSE RZero]
      conj(t) == [m |-> Neg(t.m), re |-> t.re, im |-> RNeg(t.im)]
      f == FoldLeft(LAMBDA acc, j : LET o == TLCEval(one(j)) IN TLCEval(IF cplx \/ ~HasF THEN Add(acc, o) ELSE Add(Add(acc, o), conj(o))), <<>>,
                    [j \in 1..RndIn(rng, <<"terms", s>>, 1, 4) |-> j])
  IN TLCEval(Resize(f, Size))
NComp == IF rank = 0 THEN 1 ELSE Len(axes)
DrawV(s) == [c \in 1..NComp |-> DrawF(<<s, c>>)]
SV(f, z) == [c \in 1..NComp |-> Stored(f[c], z)]
Factors == <<"1", "5/4", "4/3", "3/2", "3/2", "7/4", "2", "2">>
DrawPad(s) == IF RndBool(rng, <<"same", s>>) THEN LET p == RndSeq(rng, <<"pf", s>>, Factors) IN [i \in 1..Len(axes) |-> p]
              ELSE [i \in 1..Len(axes) |-> RndSeq(rng, <<"pf", s, i>>, Factors)]
RFloor(q) == LET RECURSIVE up(_) up(j) == IF RLeq(R(j + 1), q) THEN up(j + 1) ELSE j IN up(0)
Points(pf) == [i \in 1..Len(axes) |-> RFloor(RMul(R(pf[i]), R(axes[i].n)))]

(* ---- transitions ------------------------------------------------------------- *)
S == Len(hist)
Log(r) == hist' = Append(hist, r)
Init == /\ rng \in SEEDS
        /\ axes = DrawAxes(rng) /\ perm = DrawPerm(rng, axes)
        /\ cplx = (RAx(axes) = {} /\ HasF)
        /\ rank = (IF Len(axes) = 1 THEN 0 ELSE RndIn(rng, "rank", 0, 1))
        /\ reg = <<>> /\ hist = <<>>
Begin == /\ S = 0
         /\ reg' = [r \in 1..REGS |-> DrawV(<<"init", r>>)]
         /\ Log([op |-> "space", axes |-> axes, perm |-> perm, cplx |-> cplx, rank |-> rank, procs |-> Procs(axes, perm, FALSE),
                 reg |-> [r \in 1..REGS |-> SV(reg'[r], Size)]])
         /\ UNCHANGED <<rng, axes, perm, cplx, rank>>
A == RndIn(rng, <<"a", S>>, 1, REGS)
B == RndIn(rng, <<"b", S>>, 1, REGS)
T == RndIn(rng, <<"t", S>>, 1, REGS)
Complete(f, M) == \A c \in 1..NComp : \A i \in 1..Len(axes) : Top(f[c], M, Size)[i] = Size[i]
Light(f) == \A c \in 1..NComp : Len(f[c]) <= 12
Multiply(direct) ==
  LET pf == IF direct THEN [i \in 1..Len(axes) |-> "1"] ELSE DrawPad(S)
      M == Points(pf)
      x == IF direct THEN [c \in 1..NComp |-> Direct(reg[A][c])] ELSE reg[A]
      y == IF direct THEN [c \in 1..NComp |-> Direct(reg[B][c])] ELSE reg[B]
      e == [c \in 1..NComp |-> TLCEval(Prod(x[c], y[c]))]
      p == [c \in 1..NComp |-> TLCEval(Fold(e[c], M))]
      w == [c \in 1..NComp |-> TLCEval(Resize(p[c], Size))]
      keep == Complete(p, M) /\ Light(w)
  IN /\ reg' = IF keep THEN [reg EXCEPT ![T] = w] ELSE reg
     /\ Log([op |-> IF direct THEN "direct" ELSE "multiply", a |-> A, b |-> B, t |-> IF keep THEN T ELSE 0, pf |-> pf, M |-> M,
             how |-> RndSeq(rng, <<"how", S>>, <<"function", "space", "convolve", "built">>),
             coef |-> SV(w, Size), top |-> [c \in 1..NComp |-> Top(p[c], M, Size)], x |-> SV(x, Size), y |-> SV(y, Size),
             exact |-> [c \in 1..NComp |-> Resize(e[c], Size) = w[c]]])
Convolve ==   \* all modes that the padded mesh holds
  LET pf == DrawPad(S)
      M == Points(pf)
      p == Fold(Prod(reg[A][1], reg[B][1]), M)
  IN IF (\E i \in 1..Len(axes) : ~IsF(axes[i])) \/ rank # 0 \/ Len(axes) = 1 THEN Log([op |-> "none"]) /\ UNCHANGED reg
     ELSE /\ Log([op |-> "convolve", a |-> A, b |-> B, pf |-> pf, M |-> M, coef |-> <<Stored(p, M)>>])
          /\ UNCHANGED reg
Sums ==       \* the convolution sum without transforms, in one dimension: all wavenumbers
  IF Len(axes) # 1 \/ ~HasF THEN Log([op |-> "none"]) /\ UNCHANGED reg
  ELSE /\ Log([op |-> "sums", a |-> A, b |-> B, terms |-> Prod(reg[A][1], reg[B][1]), out |-> RndBool(rng, <<"out", S>>)])
       /\ UNCHANGED reg
Mask == LET w == [c \in 1..NComp |-> Unmasked(reg[A][c])] IN
   /\ reg' = [reg EXCEPT ![A] = w]
   /\ Log([op |-> "mask", a |-> A, t |-> A, given |-> RndBool(rng, <<"given", S>>), coef |-> SV(w, Size)])
Fresh == /\ reg' = [reg EXCEPT ![T] = DrawV(<<"fresh", S>>)]
         /\ Log([op |-> "set", t |-> T, coef |-> SV(reg'[T], Size)])
Next == \/ Begin
        \/ /\ S >= 1 /\ S <= STEPS
           /\ LET o == RndSeq(rng, <<"op", S>>, <<"multiply", "multiply", "multiply", "direct", "convolve", "sums", "mask", "set">>) IN
              CASE o = "multiply" -> Multiply(FALSE) [] o = "direct" -> Multiply(TRUE) [] o = "convolve" -> Convolve
                [] o = "sums" -> Sums [] o = "mask" -> Mask [] OTHER -> Fresh
           /\ UNCHANGED <<rng, axes, perm, cplx, rank>>
Spec == Init /\ [][Next]_vars

(* ---- properties ---------------------------------------------------------------- *)
(* values of modes at X = j pi/2 and at a rational reference point             *)
BEval(k, n, x) ==
  LET RECURSIVE go(_, _, _)
      go(j, a, b) == IF j = n THEN b   \* b = value j, a = value j - 1
                     ELSE go(j + 1, b, TLCEval(CASE k = "L" -> RSub(RMul(RMul(RDiv(2 * j + 1, j + 1), x), b), RMul(RDiv(j, j + 1), a))
                                         [] k = "C" /\ j = 0 -> x
                                         [] OTHER -> RSub(RMul(RMul(2, x), b), a)))
  IN go(0, RZero, ROne)
MEval(f, pt) == FoldLeft(LAMBDA acc, t :
    LET v == TLCEval(FoldLeft(LAMBDA c, i : CMul(c, IF IsF(axes[i]) THEN IPow(t.m[i] * pt[i] + 400) ELSE <<BEval(axes[i].k, t.m[i], R(pt[i])), RZero>>),
                      <<t.re, t.im>>, [i \in 1..Len(axes) |-> i])) IN TLCEval(<<RAdd(acc[1], v[1]), RAdd(acc[2], v[2])>>), <<RZero, RZero>>, f)
Pt == [i \in 1..Len(axes) |-> IF IsF(axes[i]) THEN RndIn(rng, <<"pt", i>>, 0, 4) ELSE RndSet(rng, <<"pt", i>>, {"1/2", "-1/3", "2/5"})]
(* the algebra of modes is pointwise multiplication                          *)
PointwiseValues == (S = 1) => \A c \in 1..NComp : MEval(Prod(reg[1][c], reg[2][c]), Pt) = CMul(MEval(reg[1][c], Pt), MEval(reg[2][c], Pt))
(* more than 3/2 n points: no aliasing in the modes that are kept            *)
Enough == S >= 2 => LET g == hist[S] IN g.op = "multiply" =>
   ((\A i \in 1..Len(axes) : IsF(axes[i]) => 2 * g.M[i] > 3 * axes[i].n) => \A c \in 1..NComp : g.exact[c])
(* 2/3 rule: the modes it keeps have no aliasing errors                      *)
RuleExact == S = 1 => \A c \in 1..NComp :
   LET p == Prod(Direct(reg[1][c]), Direct(reg[2][c])) IN ToSet(Direct(Fold(p, Size))) = ToSet(Direct(p))
Real == cplx \/ \A r \in 1..Len(reg) : \A c \in 1..NComp : \A t \in ToSet(reg[r][c]) :
             \E u \in ToSet(reg[r][c]) : u.m = Neg(t.m) /\ u.re = t.re /\ u.im = RNeg(t.im)
Emit == S = STEPS + 1 => PrintT(ToJson([steps |-> hist]))
=============================================================================
