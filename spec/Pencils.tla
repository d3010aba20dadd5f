------------------------------ MODULE Pencils -------------------------------
(***************************************************************************)
(* Distribution of a d-dimensional global array on a Cartesian grid of     *)
(* processes.  own[i] is the dimension of the process grid that axis i is  *)
(* distributed over (dims[own[i]] = 1 for the axis the array is aligned    *)
(* with), a redistribution from alignment i to alignment j swaps own.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

(* block of size items for process r of s: <<first, length>>               *)
Blk(n, s, r) == <<r * (n \div s) + (IF r < n % s THEN r ELSE n % s), (n \div s) + (IF r < n % s THEN 1 ELSE 0)>>

ProdSeq(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
(* the most even factorisation in non-increasing order over the free       *)
(* dimensions (MPI_Dims_create)                                            *)
RECURSIVE FactorSeqs(_, _, _)
FactorSeqs(p, m, hi) ==
  IF m = 0 THEN (IF p = 1 THEN {<<>>} ELSE {})
  ELSE UNION {{<<q>> \o t : t \in FactorSeqs(p \div q, m - 1, q)} : q \in {x \in 1..p : p % x = 0 /\ x <= hi}}
Balanced(p, m) == LET F == FactorSeqs(p, m, p) IN CHOOSE f \in F : \A g \in F : f[1] < g[1] \/ (f[1] = g[1] /\ (\A k \in 1..m : f[k] = g[k] \/ \E l \in 1..k : f[l] > g[l]))
DefaultDims(p, d, ax) ==
  LET b == Balanced(p, d - 1)
      pos(i) == IF i < ax THEN i ELSE i - 1
  IN [i \in 1..d |-> IF i = ax THEN 1 ELSE b[pos(i)]]
SlabDims(p, d, ax) == [i \in 1..d |-> IF i = (ax % d) + 1 THEN p ELSE 1]

(* process r (from 0) in the grid, last dimension fastest                  *)
Coord(dims, r, i) == (r \div ProdSeq(SubSeq(dims, i + 1, Len(dims)))) % dims[i]
Id(d) == [i \in 1..d |-> i]
Swap(own, i, j) == [own EXCEPT ![i] = own[j], ![j] = own[i]]
GridFits(shape, dims, own) == \A i \in 1..Len(shape) : shape[i] >= dims[own[i]]
Block(shape, dims, own, r) == [i \in 1..Len(shape) |-> Blk(shape[i], dims[own[i]], Coord(dims, r, own[i]))]

(* groups of axes that are transformed together, the first transform last: *)
(* periodic axes may be collapsed while they are not distributed           *)
RECURSIVE GroupsFrom(_, _, _, _, _)
GroupsFrom(can, perm, k, last, gs) ==
  IF k = 0 THEN gs
  ELSE LET c == perm[k] \in can IN
       GroupsFrom(can, perm, k - 1, c, IF last /\ c THEN <<<<perm[k]>> \o Head(gs)>> \o Tail(gs) ELSE <<<<perm[k]>>>> \o gs)
Groups(can, perm) == LET d == Len(perm) IN GroupsFrom(can, perm, d - 1, perm[d] \in can, <<<<perm[d]>>>>)
Collapsible(kind, dims) == {i \in 1..Len(kind) : kind[i] \in {"F", "R"} /\ dims[i] = 1}
Single(perm) == [i \in 1..Len(perm) |-> <<perm[i]>>]

(* all stages of a forward transform over the groups gs[m], ..., gs[1]:    *)
(* phys and spec are the number of items on an axis before and after       *)
After(shape, spec, g) == [i \in 1..Len(shape) |-> IF \E j \in 1..Len(g) : g[j] = i THEN spec[i] ELSE shape[i]]
RECURSIVE Stages(_, _, _, _, _)
Stages(shape, spec, gs, own, k) ==
  LET g == gs[k]
      sh == After(shape, spec, g)
  IN <<[shape |-> shape, own |-> own], [shape |-> sh, own |-> own]>> \o
     (IF k = 1 THEN <<>> ELSE Stages(sh, spec, gs, Swap(own, Last(g), Last(gs[k - 1])), k - 1))
Walk(phys, spec, gs) == Stages(phys, spec, gs, Id(Len(phys)), Len(gs))
Admissible(phys, spec, gs, dims) == LET w == Walk(phys, spec, gs) IN \A k \in 1..Len(w) : GridFits(w[k].shape, dims, w[k].own)
=============================================================================
