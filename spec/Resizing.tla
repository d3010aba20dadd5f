------------------------------ MODULE Resizing ------------------------------
(***************************************************************************)
(* Functions moved between spaces of different sizes.  A function is a     *)
(* finite set of modes: on a periodic axis the signed wavenumber, on a     *)
(* bounded one the number of the basis function.  A space of n points      *)
(* holds on a periodic axis the wavenumbers |k| <= n/2, where for even n   *)
(* the modes n/2 and -n/2 are one and the same on the mesh: they share one *)
(* coefficient and therefore have equal amplitudes (symmetric              *)
(* interpolation); on a bounded one the n - nb first basis functions.      *)
(* The boundary values belong to the space and are the same for all sizes. *)
(***************************************************************************)
EXTENDS Fields, Json
CONSTANTS SEEDS, DIMS, REGS, STEPS, KINDS

VARIABLES rng, kind, axes, perm, cplx, size, rank, reg, at, hist
vars == <<rng, kind, axes, perm, cplx, size, rank, reg, at, hist>>

Fams == <<"C", "L", "C", "L", "U", "Q">>
NB(bc) == CASE bc \in {"D", "DI", "N"} -> 2 [] bc \in {"LD", "RD"} -> 1 [] bc = "DN" -> 4 [] OTHER -> 0
RAx(ax) == {i \in 1..Len(ax) : ax[i].k = "R"}
DrawAxes(r) ==
  LET d == RndSet(r, "dim", DIMS)
      nb == RndIn(r, "nb", 0, IF d < 2 THEN d ELSE 2)
      h(i) == Rnd(r, <<"which", i>>, 1000) * 10 + i
      bounded == {i \in 1..d : Cardinality({j \in 1..d : h(j) < h(i)}) < nb}
      fs == {i \in 1..d : i \notin bounded}
      rax == IF RndIn(r, "real", 0, 3) > 0 /\ fs # {} THEN RndSet(r, "rax", fs) ELSE 0
      inh == IF bounded # {} /\ RndIn(r, "inh", 0, 3) = 0 THEN RndSet(r, "inhax", bounded) ELSE 0
  IN [i \in 1..d |-> DrawAxis(r, i, IF i \in bounded THEN RndSeq(r, <<"fam", i>>, Fams) ELSE IF i = rax THEN "R" ELSE "F",
                 IF i = inh THEN {"DI"} ELSE IF inh # 0 THEN {"none"} ELSE {"none", "D", "D", "DN", "LD", "RD", "N"}, 7, 9)]
DrawPerm(r, ax) ==
  LET d == Len(ax)
      key(i) == IF i \in RAx(ax) THEN 10000 ELSE Rnd(r, <<"perm", i>>, IF ax[i].k = "F" THEN 1000 ELSE 2000) * 10 + i
  IN [j \in 1..d |-> CHOOSE i \in 1..d : Cardinality({l \in 1..d : key(l) < key(i)}) = j - 1]
DrawSize(s) == [i \in 1..Len(axes) |-> IF IsF(axes[i]) THEN RndIn(rng, <<"sz", s, i>>, 4, 11)
                                       ELSE RndIn(rng, <<"sz", s, i>>, NB(axes[i].bc) + 2, NB(axes[i].bc) + 8)]
Sized(z) == [i \in 1..Len(axes) |-> [axes[i] EXCEPT !.n = z[i]]]

(* ---- modes ------------------------------------------------------------ *)
Neg(m) == [i \in 1..Len(m) |-> IF IsF(axes[i]) THEN 0 - m[i] ELSE m[i]]
Add(f, t) ==
  LET w == {i \in 1..Len(f) : f[i].m = t.m} IN
  IF RIsZero(t.re) /\ RIsZero(t.im) THEN f
  ELSE IF w = {} THEN Append(f, t)
  ELSE LET i == CHOOSE i \in w : TRUE
           u == [f[i] EXCEPT !.re = RAdd(@, t.re), !.im = RAdd(@, t.im)]
       IN IF RIsZero(u.re) /\ RIsZero(u.im) THEN RemoveAt(f, i) ELSE [f EXCEPT ![i] = u]
Sum(f, g) == FoldLeft(Add, f, g)
Cut(f, i, n) ==     \* the part of f that n points on axis i hold
  IF ~IsF(axes[i]) THEN SelectSeq(f, LAMBDA t : t.m[i] < n - NB(axes[i].bc))
  ELSE FoldLeft(LAMBDA acc, t :
         LET k == t.m[i] a == IF k < 0 THEN 0 - k ELSE k IN
         IF 2 * a > n THEN acc
         ELSE IF 2 * a < n THEN Add(acc, t)
         ELSE LET h == [t EXCEPT !.re = RDiv(@, 2), !.im = RDiv(@, 2)] IN Add(Add(acc, h), [h EXCEPT !.m[i] = 0 - k]),
       <<>>, f)
RECURSIVE CutAll(_, _, _)
CutAll(f, z, i) == IF i > Len(z) THEN f ELSE CutAll(Cut(f, i, z[i]), z, i + 1)
Resize(f, z) == CutAll(f, z, 1)
(* the coefficient array: index i -> value (nonzero entries)               *)
Wrap(k, n) == IF k >= 0 THEN k ELSE k + n
Stored(f, z) ==
  LET keep == SelectSeq(f, LAMBDA t : \A i \in RAx(axes) : t.m[i] >= 0 \/ 0 - 2 * t.m[i] = z[i])
      ind(t) == [i \in 1..Len(z) |-> IF IsF(axes[i]) THEN Wrap(t.m[i], z[i]) ELSE t.m[i]]
  IN FoldLeft(LAMBDA acc, t : Add(acc, [t EXCEPT !.m = ind(t)]), <<>>, keep)

(* ---- drawing ---------------------------------------------------------- *)
Val(s) == RndSet(rng, <<"v", s>>, {"1", "-1", "2", "1/2", "-3"})
Val0(s) == RndSet(rng, <<"w", s>>, {"0", "1", "-1", "1/2"})
HasF == \E i \in 1..Len(axes) : IsF(axes[i])
Mode(s, z) == [i \in 1..Len(z) |-> IF IsF(axes[i]) THEN RndIn(rng, <<"k", s, i>>, 0 - (z[i] \div 2), z[i] \div 2)
                                   ELSE RndIn(rng, <<"j", s, i>>, 0, z[i] - NB(axes[i].bc) - 1)]
DrawF(s, z) ==
  LET one(j) == [m |-> Mode(<<s, j>>, z), re |-> R(Val(<<s, j>>)), im |-> IF HasF THEN R(Val0(<<s, j>>)) ELSE RZero]
      conj(t) == [m |-> Neg(t.m), re |-> t.re, im |-> RNeg(t.im)]
      f == FoldLeft(LAMBDA acc, j : IF cplx \/ ~HasF THEN Add(acc, one(j)) ELSE Add(Add(acc, one(j)), conj(one(j))), <<>>,
                    [j \in 1..RndIn(rng, <<"terms", s>>, 1, 5) |-> j])
  IN Resize(f, z)       \* symmetric at the Nyquist modes
NComp == IF rank = 0 THEN 1 ELSE IF rank = 1 THEN Len(axes) ELSE Len(axes) * Len(axes)
DrawV(s, z) == [c \in 1..NComp |-> DrawF(<<s, c>>, z)]
RV(f, z) == [c \in 1..Len(f) |-> Resize(f[c], z)]
SV(f, z) == [c \in 1..Len(f) |-> Stored(f[c], z)]

S == Len(hist)
NZ == 4
Init == /\ rng \in SEEDS
        /\ kind = RndSet(rng, "kind", KINDS)
        /\ axes = DrawAxes(rng) /\ perm = DrawPerm(rng, axes)
        /\ cplx = (RAx(axes) = {} /\ HasF)
        /\ size = [s \in 1..NZ |-> DrawSize(s)]
        /\ rank = (IF kind = "scalar" \/ Len(axes) = 1 THEN 0 ELSE IF Len(axes) = 2 THEN RndIn(rng, "rank", 1, 2) ELSE 1)
        /\ reg = <<>> /\ at = <<>> /\ hist = <<>>
Begin == /\ S = 0
         /\ at' = [r \in 1..REGS |-> RndIn(rng, <<"at", r>>, 1, NZ)]
         /\ reg' = [r \in 1..REGS |-> DrawV(<<"init", r>>, size[at'[r]])]
         /\ hist' = <<[op |-> "space", axes |-> axes, perm |-> perm, cplx |-> cplx, size |-> size, rank |-> rank, at |-> at',
                       nb |-> [i \in 1..Len(axes) |-> NB(axes[i].bc)],
                       procs |-> {p \in 1..4 : \A z \in 1..NZ : p \in Procs(Sized(size[z]), perm, FALSE)},
                       reg |-> [r \in 1..REGS |-> SV(reg'[r], size[at'[r]])],
                       pts |-> [j \in 1..3 |-> RndPoint(rng, <<"pt", j>>, axes)]]>>
         /\ UNCHANGED <<rng, kind, axes, perm, cplx, size, rank>>
Src == RndIn(rng, <<"s", S>>, 1, REGS)
Tgt == RndIn(rng, <<"t", S>>, 1, REGS)
Z == RndIn(rng, <<"z", S>>, 1, NZ)
Same(f, g) == f = g     \* as functions: no mode is lost or merged
Grows(za, zb) == \A i \in 1..Len(axes) : zb[i] >= za[i]
\* between mesh points the shared Nyquist coefficient has no agreed meaning
Nyq(f, z) == \E c \in 1..Len(f) : \E t \in ToSet(f[c]) : \E i \in 1..Len(axes) : IsF(axes[i]) /\ (2 * t.m[i] = z[i] \/ 0 - 2 * t.m[i] = z[i])
Put(t, f, z) == reg' = [reg EXCEPT ![t] = f] /\ at' = [at EXCEPT ![t] = z]
Log(r) == hist' = Append(hist, r)
Refine == LET f == RV(reg[Src], size[Z]) IN
   /\ Put(Tgt, f, Z)
   /\ Log([op |-> "refine", s |-> Src, t |-> Tgt, z |-> Z, how |-> RndSet(rng, <<"how", S>>, {"new", "output", "tuple", "array"}),
           coef |-> SV(f, size[Z]), same |-> ~Nyq(reg[Src], size[at[Src]]) /\ ~Nyq(f, size[Z]) /\ (\A c \in 1..NComp : Cardinality(ToSet(f[c]) \cap ToSet(reg[Src][c])) = Len(reg[Src][c]) /\ Len(f[c]) = Len(reg[Src][c]))])
Assign == LET f == RV(reg[Src], size[at[Tgt]]) IN
   /\ Tgt # Src
   /\ Put(Tgt, f, at[Tgt])
   /\ Log([op |-> "assign", s |-> Src, t |-> Tgt, z |-> at[Tgt], coef |-> SV(f, size[at[Tgt]]),
           same |-> ~Nyq(reg[Src], size[at[Src]]) /\ ~Nyq(f, size[at[Tgt]]) /\ (\A c \in 1..NComp : Cardinality(ToSet(f[c]) \cap ToSet(reg[Src][c])) = Len(reg[Src][c]) /\ Len(f[c]) = Len(reg[Src][c]))])
\* up to sizes that hold everything and back
Bounce == LET up == [i \in 1..Len(axes) |-> size[at[Src]][i] + RndIn(rng, <<"by", S, i>>, 0, 5)] IN
   /\ UNCHANGED <<reg, at>>
   /\ Log([op |-> "bounce", s |-> Src, up |-> up, coef |-> SV(reg[Src], size[at[Src]]), mid |-> SV(reg[Src], up), same |-> ~Nyq(reg[Src], size[at[Src]])])
Fresh == LET f == DrawV(<<"fresh", S>>, size[at[Tgt]]) IN
   /\ Put(Tgt, f, at[Tgt]) /\ Log([op |-> "set", t |-> Tgt, coef |-> SV(f, size[at[Tgt]])])
Next == \/ Begin
        \/ /\ S >= 1 /\ S <= STEPS
           /\ LET o == RndSeq(rng, <<"op", S>>, <<"refine", "refine", "assign", "bounce", "set">>) IN
              CASE o = "refine" -> Refine
                [] o = "assign" /\ Tgt # Src -> Assign
                [] o = "set" -> Fresh
                [] OTHER -> Bounce
           /\ UNCHANGED <<rng, kind, axes, perm, cplx, size, rank>>
Spec == Init /\ [][Next]_vars

(* ---- the operation itself --------------------------------------------- *)
Regs == 1..Len(reg)
Eq(f, g) == Len(f) = Len(g) /\ ToSet(f) = ToSet(g)
Held == \A r \in Regs : \A c \in 1..NComp : Eq(Resize(reg[r][c], size[at[r]]), reg[r][c])
UpDown == \A r \in Regs : \A z \in 1..NZ : Grows(size[at[r]], size[z]) =>
             \A c \in 1..NComp : Eq(Resize(reg[r][c], size[z]), reg[r][c])
Nested == \A r \in Regs : \A y, z \in 1..NZ : Grows(size[z], size[y]) =>
             \A c \in 1..NComp : (\A i \in 1..Len(axes) : IsF(axes[i]) => (size[y][i] = size[z][i] \/ size[y][i] % 2 = 1 \/ size[y][i] > size[z][i])) =>
               Eq(Resize(Resize(reg[r][c], size[y]), size[z]), Resize(reg[r][c], size[z]))
Real == cplx \/ \A r \in Regs : \A c \in 1..NComp : \A t \in ToSet(reg[r][c]) :
             \E u \in ToSet(reg[r][c]) : u.m = Neg(t.m) /\ u.re = t.re /\ u.im = RNeg(t.im)
Emit == S = STEPS + 1 => PrintT(ToJson([steps |-> hist]))
=============================================================================
