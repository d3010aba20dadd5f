---------------------------- MODULE Distribution ----------------------------
(***************************************************************************)
(* The distribution of the arrays of a tensor product space through a      *)
(* forward transform (Forward: every axis is transformed when the array is *)
(* aligned with it, redistributions in between), and back.  A state is the *)
(* global shape and which dimension of the process grid distributes which  *)
(* axis.  Every item of the global array is at exactly one process in      *)
(* every state; a redistribution along one communicator moves items only   *)
(* between the processes of that communicator.                             *)
(***************************************************************************)
EXTENDS Pencils, Rnd, Json
CONSTANTS SEEDS, NPROCS

VARIABLES rng, cfg, shape, own, k, dir, hist
vars == <<rng, cfg, shape, own, k, dir, hist>>

Kinds(r, d) ==   \* R at most once, transformed first
  LET rax == RndIn(r, "rax", 0, d) IN
  [i \in 1..d |-> IF i = rax THEN "R" ELSE RndSeq(r, <<"k", i>>, <<"F", "F", "C", "L">>)]
DrawPerm(r, kind) ==
  LET d == Len(kind)
      key(i) == IF kind[i] = "R" THEN 10000 ELSE Rnd(r, <<"perm", i>>, 1000) * 10 + i
  IN [j \in 1..d |-> CHOOSE i \in 1..d : Cardinality({l \in 1..d : key(l) < key(i)}) = j - 1]
SpecOf(kind, phys) == [i \in 1..Len(kind) |-> IF kind[i] = "R" THEN phys[i] \div 2 + 1 ELSE phys[i]]
Grids(p, d, ax) == {g \in UNION {{h : h \in [1..d -> 1..p]}} : ProdSeq([i \in 1..d |-> g[i]]) = p /\ g[ax] = 1}
Cfg(r) ==
  LET d == RndSeq(r, "dim", <<2, 3, 3, 4>>)
      p == RndSet(r, "np", NPROCS)
      kind == Kinds(r, d)
      perm == DrawPerm(r, kind)
      phys == [i \in 1..d |-> RndIn(r, <<"n", i>>, 4, IF d = 4 THEN 6 ELSE 9)]
      mode == RndSeq(r, "mode", <<"default", "slab", "grid", "grid">>)
      ax == perm[d]
      dims == IF mode = "default" THEN DefaultDims(p, d, ax) ELSE IF mode = "slab" THEN SlabDims(p, d, ax) ELSE RndSet(r, "grid", Grids(p, d, ax))
      collapse == RndBool(r, "collapse")
      comps == RndSeq(r, "comps", <<0, 0, 1, 2>>)
  IN [d |-> d, np |-> p, kind |-> kind, perm |-> perm, phys |-> phys, spec |-> SpecOf(kind, phys), mode |-> mode, dims |-> dims, collapse |-> collapse,
      groups |-> IF collapse THEN Groups(Collapsible(kind, dims), perm) ELSE Single(perm), rank |-> comps,
      pad |-> [i \in 1..d |-> IF kind[i] \in {"R", "F"} THEN RndSeq(r, <<"pad", i>>, <<"1", "3/2", "2", "1">>) ELSE "1"],
      refine |-> [i \in 1..d |-> RndIn(r, <<"ref", i>>, 4, 9)]]

Ok(c) == Admissible(c.phys, c.spec, c.groups, c.dims)
Init == /\ rng \in SEEDS /\ cfg = Cfg(rng) /\ shape = cfg.phys /\ own = Id(cfg.d) /\ k = Len(cfg.groups) /\ dir = "physical" /\ hist = <<>>
Procs == 0..(cfg.np - 1)
BlockOf(r) == Block(shape, cfg.dims, own, r)
Blocks == [r \in 1..cfg.np |-> BlockOf(r - 1)]
Log(what) == hist' = Append(hist, [at |-> what, blocks |-> Blocks', shape |-> shape'])

Plan == /\ dir = "physical" /\ hist = <<>> /\ Ok(cfg)
        /\ dir' = "fwd" /\ UNCHANGED <<shape, own, k, rng, cfg>>
        /\ Log("physical")
Transform == /\ dir = "fwd"
             /\ shape' = After(shape, cfg.spec, cfg.groups[k])
             /\ UNCHANGED <<own, k, rng, cfg>>
             /\ IF k = 1 THEN dir' = "spectral" /\ Log("spectral") ELSE dir' = "move" /\ UNCHANGED hist
Move == /\ dir = "move"
        /\ own' = Swap(own, Last(cfg.groups[k]), Last(cfg.groups[k - 1])) /\ k' = k - 1 /\ dir' = "fwd"
        /\ UNCHANGED <<shape, rng, cfg, hist>>
(* back again: the inverse moves and transforms end in the first state     *)
Return == /\ dir = "spectral" /\ dir' = "bwd" /\ UNCHANGED <<shape, own, k, rng, cfg, hist>>
Untransform == /\ dir = "bwd"
               /\ shape' = After(shape, cfg.phys, cfg.groups[k])
               /\ dir' = IF k = Len(cfg.groups) THEN "done" ELSE "unmove"
               /\ UNCHANGED <<own, k, rng, cfg, hist>>
Unmove == /\ dir = "unmove"
          /\ own' = Swap(own, Last(cfg.groups[k]), Last(cfg.groups[k + 1])) /\ k' = k + 1 /\ dir' = "bwd"
          /\ UNCHANGED <<shape, rng, cfg, hist>>
Next == Plan \/ Transform \/ Move \/ Return \/ Untransform \/ Unmove
Spec == Init /\ [][Next]_vars

In(b, i, x) == b[i][1] <= x /\ x < b[i][1] + b[i][2]
Aligned == dir \in {"fwd", "bwd"} => \A j \in 1..Len(cfg.groups[k]) : cfg.dims[own[cfg.groups[k][j]]] = 1
NonEmpty == dir # "physical" => \A r \in Procs : \A i \in 1..cfg.d : BlockOf(r)[i][2] > 0
(* every item belongs to exactly one process                               *)
Box(sh) == LET RECURSIVE B(_) B(i) == IF i > Len(sh) THEN {<<>>} ELSE {<<x>> \o t : x \in 0..(sh[i] - 1), t \in B(i + 1)} IN B(1)
Partition == (dir \in {"fwd", "spectral"} /\ cfg.d < 4) =>
  LET bs == Blocks IN \A pt \in Box(shape) : Cardinality({r \in 1..cfg.np : \A i \in 1..cfg.d : In(bs[r], i, pt[i])}) = 1
Count == dir # "physical" => FoldLeft(LAMBDA a, b : a + ProdSeq([i \in 1..cfg.d |-> b[i][2]]), 0, Blocks) = ProdSeq(shape)
Home == dir = "done" => shape = cfg.phys /\ own = Id(cfg.d) /\ Blocks = hist[1].blocks
(* a move keeps the blocks of all axes but two                             *)
MoveLocal == [][(dir = "move" /\ dir' = "fwd") => \A r \in 1..cfg.np : Cardinality({i \in 1..cfg.d : Blocks'[r][i] # Blocks[r][i]}) <= 2]_vars
Emit == dir = "done" => PrintT(ToJson([cfg |-> cfg, steps |-> hist]))
=============================================================================
