----------------------------- MODULE Components -----------------------------
(***************************************************************************)
(* Functions on composite spaces and block matrices.  A composite space is  *)
(* a tree whose leaves are scalar spaces; a function on it holds one array   *)
(* per leaf, in the order of the leaves.  The contents of a leaf are a       *)
(* linear combination of given arrays <<atom, leaf>>.  Selecting the         *)
(* component at a path gives the leaves below it, not a copy; a view that    *)
(* was taken earlier is as good as the path it was taken with.               *)
(* A block matrix is a map from pairs of leaves (test, trial) to linear      *)
(* combinations of given operators.                                          *)
(***************************************************************************)
EXTENDS Fields, Json
CONSTANTS SEEDS, DIMS, STEPS

VARIABLES rng, axes, perm, cplx, tree, bcs, reg, held, blk, hist
vars == <<rng, axes, perm, cplx, tree, bcs, reg, held, blk, hist>>
S == Len(hist)
Log(r) == hist' = Append(hist, r)
LogA(r) == hist' = Append(hist, r @@ [after |-> reg'])     \* with the contents after the step
Regs == 1..3
Atoms == 3

(* ---- trees: [k |-> "S" | "V" | "T" | "M", c |-> children] ----------------- *)
Dim == Len(axes)
Leaf == [k |-> "S", c |-> <<>>]
Vec(d) == [k |-> "V", c |-> [i \in 1..d |-> Leaf]]
Ten(d) == [k |-> "T", c |-> [i \in 1..d |-> Vec(d)]]
RECURSIVE DrawTree(_, _, _, _)
DrawTree(r, s, d, depth) ==
  LET o == RndSeq(r, <<"node", s>>, IF d = 1 THEN (IF depth = 0 THEN <<"M">> ELSE IF depth < 2 THEN <<"S", "S", "M">> ELSE <<"S">>)
                                    ELSE IF depth = 0 THEN <<"V", "T", "M", "M", "M">> ELSE IF depth < 2 THEN <<"S", "S", "V", "V", "M", "T">> ELSE <<"S", "V">>)
  IN CASE o = "S" -> Leaf [] o = "V" -> Vec(d) [] o = "T" -> Ten(d)
       [] OTHER -> [k |-> "M", c |-> [i \in 1..RndIn(r, <<"nc", s>>, 2, IF depth = 0 THEN 3 ELSE 2) |-> DrawTree(r, Append(s, i), d, depth + 1)]]
RECURSIVE Count(_)
Count(t) == IF t.k = "S" THEN 1 ELSE FoldLeft(LAMBDA a, x : a + Count(x), 0, t.c)
RECURSIVE Node(_, _)
Node(t, p) == IF p = <<>> THEN t ELSE Node(t.c[p[1]], Tail(p))
RECURSIVE Offset(_, _)
Offset(t, p) == IF p = <<>> THEN 0
                ELSE FoldLeft(LAMBDA a, j : a + Count(t.c[j]), 0, [j \in 1..(p[1] - 1) |-> j]) + Offset(t.c[p[1]], Tail(p))
LeavesAt(p) == (Offset(tree, p) + 1)..(Offset(tree, p) + Count(Node(tree, p)))
RECURSIVE Paths(_)
Paths(t) == {<<>>} \cup UNION {{<<i>> \o q : q \in Paths(t.c[i])} : i \in 1..Len(t.c)}
NL == Count(tree)
PathOf(l) == CHOOSE p \in Paths(tree) : Node(tree, p).k = "S" /\ LeavesAt(p) = {l}
DrawPath(s) == RndSet(rng, <<"path", s>>, Paths(tree))

(* ---- contents of leaves ----------------------------------------------------- *)
Add(f, t) ==
  LET w == {i \in 1..Len(f) : f[i].m = t.m} IN
  IF RIsZero(t.c) THEN f
  ELSE IF w = {} THEN Append(f, t)
  ELSE LET i == CHOOSE i \in w : TRUE u == [f[i] EXCEPT !.c = RAdd(@, t.c)] IN IF RIsZero(u.c) THEN RemoveAt(f, i) ELSE [f EXCEPT ![i] = u]
Sum(f, g) == FoldLeft(LAMBDA a, t : TLCEval(Add(a, t)), f, g)
Times(c, f) == IF RIsZero(c) THEN <<>> ELSE [i \in 1..Len(f) |-> [f[i] EXCEPT !.c = RMul(c, @)]]
Atom(a, l, c) == <<[m |-> <<a, l>>, c |-> R(c)]>>
Coefs == {"1", "-1", "2", "1/2", "-3"}
C(s) == RndSet(rng, <<"c", s>>, Coefs)

(* ---- axes --------------------------------------------------------------------- *)
Fams == <<"C", "L">>
RAx(ax) == {i \in 1..Len(ax) : ax[i].k = "R"}
DrawAxes(r) ==
  LET d == RndSet(r, "dim", DIMS)
      nb == IF d = 1 THEN 1 ELSE RndSeq(r, "nb", <<1, 1, 1, 0, 2>>)
      h(i) == Rnd(r, <<"which", i>>, 1000) * 10 + i
      bounded == {i \in 1..d : Cardinality({j \in 1..d : h(j) < h(i)}) < nb}
      fs == {i \in 1..d : i \notin bounded}
      rax == IF RndIn(r, "real", 0, 3) > 0 /\ fs # {} THEN RndSet(r, "rax", fs) ELSE 0
      ax(i) == DrawAxis(r, i, IF i \in bounded THEN RndSeq(r, "fam", Fams) ELSE IF i = rax THEN "R" ELSE "F", {"none"}, 6, 8)
  IN [i \in 1..d |-> [ax(i) EXCEPT !.quad = CASE ax(i).k = "C" -> "GC" [] ax(i).k = "L" -> "LG" [] OTHER -> @]]
DrawPerm(r, ax) ==
  LET d == Len(ax)
      key(i) == IF i \in RAx(ax) THEN 10000 ELSE Rnd(r, <<"perm", i>>, IF ax[i].k = "F" THEN 1000 ELSE 2000) * 10 + i
  IN [j \in 1..d |-> CHOOSE i \in 1..d : Cardinality({l \in 1..d : key(l) < key(i)}) = j - 1]
HasF == \E i \in 1..Len(axes) : IsF(axes[i])
NBnd == Cardinality({i \in 1..Len(axes) : ~IsF(axes[i])})

Init == /\ rng \in SEEDS
        /\ axes = DrawAxes(rng) /\ perm = DrawPerm(rng, axes)
        /\ cplx = (RAx(axes) = {} /\ HasF)
        /\ tree = DrawTree(rng, <<>>, Len(axes), 0)
        /\ bcs = [i \in 1..8 |-> RndSeq(rng, <<"bc", i>>, <<"none", "D", "D", "N", "LD">>)]   \* conditions of the scalar spaces, in order of their nodes
        /\ reg = [r \in Regs |-> [l \in 1..NL |-> Atom(r, l, "1")]]
        /\ held = <<>>
        /\ blk = [i \in 1..NL |-> [j \in 1..NL |-> <<>>]]
        /\ hist = <<>>
Begin == /\ S = 0
         /\ Log([op |-> "space", axes |-> axes, perm |-> perm, cplx |-> cplx, tree |-> tree, bcs |-> bcs, procs |-> Procs(axes, perm, FALSE),
                 nl |-> NL, out |-> RndBool(rng, "out"), reg |-> reg, nb |-> NBnd])
         /\ UNCHANGED <<reg, held, blk>>
(* ---- operations on functions ------------------------------------------------------ *)
RG == RndIn(rng, <<"r", S>>, 1, 3)
R2 == RndIn(rng, <<"r2", S>>, 1, 3)
P1 == DrawPath(S)
At(r, p, f(_)) == reg' = [reg EXCEPT ![r] = [l \in 1..NL |-> IF l \in LeavesAt(p) THEN TLCEval(f(l)) ELSE @[l]]]
Sel(p) == [path |-> p, neg |-> [i \in 1..Len(p) |-> IF RndIn(rng, <<"neg", S, i>>, 0, 3) = 0 THEN p[i] - 1 - Len(Node(tree, SubSeq(p, 1, i - 1)).c) ELSE p[i] - 1]]
Fill == LET a == RndIn(rng, <<"atom", S>>, 1, Atoms) c == C(S) IN
   /\ At(RG, P1, LAMBDA l : Atom(a, l, c))
   /\ LogA([op |-> "fill", r |-> RG, sel |-> Sel(P1), leaves |-> SetToSeq(LeavesAt(P1)), atom |-> a, c |-> c, form |-> RndSeq(rng, <<"form", S>>, <<"slice", "array", "values">>)])
   /\ UNCHANGED <<held, blk>>
ScaleBy == LET c == C(S) IN
   /\ At(RG, P1, LAMBDA l : Times(c, reg[RG][l]))
   /\ LogA([op |-> "scale", r |-> RG, sel |-> Sel(P1), c |-> c]) /\ UNCHANGED <<held, blk>>
Alike == {q \in Paths(tree) : Node(tree, q) = Node(tree, P1)}
Accum == LET q == RndSet(rng, <<"q", S>>, Alike)
             sub == RndBool(rng, <<"sub", S>>)
             put == RndBool(rng, <<"put", S>>)
             o(l) == l - Offset(tree, P1) + Offset(tree, q) IN
   /\ At(RG, P1, LAMBDA l : IF put THEN reg[R2][o(l)] ELSE Sum(reg[RG][l], Times(IF sub THEN -1 ELSE 1, reg[R2][o(l)])))
   /\ LogA([op |-> "combine", r |-> RG, sel |-> Sel(P1), s |-> R2, from |-> q, how |-> IF put THEN "put" ELSE IF sub THEN "sub" ELSE "add"])
   /\ UNCHANGED <<held, blk>>
Combine == IF RG = R2 /\ P1 # <<>> /\ FALSE THEN Fill ELSE Accum
Copy == /\ reg' = [reg EXCEPT ![RG] = [l \in 1..NL |-> Times(2, reg[R2][l])]]
        /\ held' = SelectSeq(held, LAMBDA h : h.r # RG)       \* register RG is a new function
        /\ LogA([op |-> "copy", r |-> RG, s |-> R2]) /\ UNCHANGED blk
Hold == /\ held' = Append(held, [r |-> RG, path |-> P1])
        /\ Log([op |-> "hold", r |-> RG, sel |-> Sel(P1)]) /\ UNCHANGED <<reg, blk>>
Through == IF held = <<>> THEN Hold
   ELSE LET i == RndIn(rng, <<"h", S>>, 1, Len(held)) c == C(S) a == RndIn(rng, <<"atom", S>>, 1, Atoms)
            all == RndBool(rng, <<"all", S>>) IN
        /\ At(held[i].r, held[i].path, LAMBDA l : IF all THEN Atom(a, l, c) ELSE Times(c, reg[held[i].r][l]))
        /\ LogA([op |-> "through", h |-> i, r |-> held[i].r, path |-> held[i].path, leaves |-> SetToSeq(LeavesAt(held[i].path)), atom |-> IF all THEN a ELSE 0, c |-> c])
        /\ UNCHANGED <<held, blk>>
Whole == /\ Log([op |-> "whole", r |-> RG, sel |-> Sel(P1), what |-> RndSeq(rng, <<"what", S>>, <<"backward", "forward", "scalar", "mask", "ortho", "eval", "padded">>)])
         /\ UNCHANGED <<reg, held, blk>>
(* ---- block matrices ------------------------------------------------------------------ *)
Kinds == IF Len(axes) = 1 THEN <<"mass", "d0", "d0d0">> ELSE <<"mass", "d0", "d1", "lap">>
Shift(p, q) == \* pairs of leaves of two alike components
  [n \in 1..Count(Node(tree, p)) |-> <<Offset(tree, p) + n, Offset(tree, q) + n>>]
Small0 == {p \in Paths(tree) : Node(tree, p).k \in {"S", "V"}}
DrawBlock(s) == LET p == RndSet(rng, <<"bp", s>>, Small0)
                    q == RndSet(rng, <<"bq", s>>, {x \in Small0 : Node(tree, x) = Node(tree, p)})
                    k == IF Node(tree, p).k = "V" THEN "mass" ELSE RndSeq(rng, <<"bk", s>>, Kinds)
                IN [p |-> p, q |-> q, k |-> k, c |-> RndSet(rng, <<"bc", s>>, Coefs)]
Diag == [n \in 1..NL |-> [p |-> PathOf(n), q |-> PathOf(n), k |-> "mass", c |-> "7"]]
Put(b, d) == LET prs == Shift(d.p, d.q) IN
   FoldLeft(LAMBDA acc, pr : TLCEval([acc EXCEPT ![pr[1]][pr[2]] = Add(@, [m |-> <<d.k>>, c |-> R(d.c)])]), b, prs)
NoBlocks == [i \in 1..NL |-> [j \in 1..NL |-> <<>>]]
Build == LET n == RndIn(rng, <<"nblk", S>>, 1, 4)
             ds == [i \in 1..n |-> DrawBlock(<<S, i>>)]
             full == RndBool(rng, <<"full", S>>)
             all == IF full THEN Diag \o ds ELSE ds
             add == RndBool(rng, <<"add", S>>) /\ blk # NoBlocks
             b == FoldLeft(LAMBDA acc, d : TLCEval(Put(acc, d)), IF add THEN blk ELSE NoBlocks, all)
         IN /\ blk' = b
            /\ Log([op |-> "blocks", ds |-> all, add |-> add, how |-> RndSeq(rng, <<"ah", S>>, <<"iadd", "add">>), blk |-> b]) /\ UNCHANGED <<reg, held>>
Apply == IF blk = NoBlocks THEN Build
   ELSE /\ Log([op |-> "apply", r |-> RG, blk |-> blk, scipy |-> RndBool(rng, <<"sc", S>>), solve |-> RndBool(rng, <<"slv", S>>)])
        /\ UNCHANGED <<reg, held, blk>>
Next == \/ Begin /\ UNCHANGED <<rng, axes, perm, cplx, tree, bcs>>
        \/ /\ S >= 1 /\ S <= STEPS
           /\ LET o == RndSeq(rng, <<"op", S>>, <<"fill", "scale", "combine", "combine", "copy", "hold", "through", "through", "whole", "whole", "build", "apply", "apply">>) IN
              CASE o = "fill" -> Fill [] o = "scale" -> ScaleBy [] o = "combine" -> Combine [] o = "copy" -> Copy [] o = "hold" -> Hold
                [] o = "through" -> Through [] o = "whole" -> Whole [] o = "build" -> Build [] OTHER -> Apply
           /\ UNCHANGED <<rng, axes, perm, cplx, tree, bcs>>
Spec == Init /\ [][Next]_vars

(* ---- properties --------------------------------------------------------------------------- *)
(* the leaves below the children of a node are a partition of those below it *)
Partition == (S = 1) => \A p \in Paths(tree) : LET t == Node(tree, p) IN t.k # "S" =>
    /\ UNION {LeavesAt(Append(p, i)) : i \in 1..Len(t.c)} = LeavesAt(p)
    /\ \A i, j \in 1..Len(t.c) : i # j => LeavesAt(Append(p, i)) \cap LeavesAt(Append(p, j)) = {}
(* a write through a path or a view changes leaves below it only *)
Isolated == [][(S > 0) => LET g == hist'[S'] IN
    \A r \in Regs : \A l \in 1..NL : reg'[r][l] # reg[r][l] =>
       /\ g.op \in {"fill", "scale", "combine", "copy", "through"} /\ g.r = r
       /\ (g.op # "copy" => l \in LeavesAt(IF g.op = "through" THEN g.path ELSE g.sel.path))]_vars
Emit == S = STEPS + 1 => PrintT(ToJson([steps |-> [i \in 1..S |-> hist[i]], last |-> reg]))
=============================================================================
