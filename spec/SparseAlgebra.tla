---------------------------- MODULE SparseAlgebra ----------------------------
(***************************************************************************)
(* A store of matrices, each one abstractly a dense matrix of rationals,   *)
(* on which the user performs the documented operations of sparse matrix   *)
(* objects.  One action is one public operation; hist records the action,  *)
(* its arguments and the complete abstract store after it, so that every   *)
(* behaviour can be replayed on the implementation (harness replay_p01).   *)
(*                                                                         *)
(* lin is a second, symbolic abstraction: the value as a formal linear     *)
(* combination of the matrices created by New (<<>> when not linear); the  *)
(* replay uses it to run the same behaviour on assembled spectral matrices.*)
(***************************************************************************)
EXTENDS Mat, Rnd, FiniteSets, Json
CONSTANTS NREG, SIZES, STEPS, SOLVES, EMIT, SEEDS, NAMES

Reg == 1..NREG
VARIABLES store, hist, nleaf, rng   \* rng: seed of the random data of the next action
vars == <<store, hist, nleaf, rng>>
None == [tag |-> "none"]
Live == {r \in Reg : store[r].tag = "mat"}

Dr(salt, S) == RndSet(rng, salt, S)
Entry == {-3, -2, -1, 1, 2, 3, 0}
NonZero == Entry \ {0}
Scales == {"2", "-1", "1/2", "-3", "4", "1/4", "3", "-1/2", "0", "5/4"}
NZScales == Scales \ {"0"}

FromDiags(n, m, D) ==
  MatOf(n, m, LAMBDA i, j : LET k == j - i IN
        IF k \in DOMAIN D THEN R(D[k][DiagIndex(i, j)]) ELSE RZero)

AllOffs(n, m) == {k \in -(n - 1)..(m - 1) : DiagLen(n, m, k) > 0}
RandDiag(n, m, k) == [i \in 1..DiagLen(n, m, k) |-> Dr(<<1, k, i>>, Entry)]
ConstDiag(n, m, k) == LET c == Dr(<<2, k>>, NonZero) IN [i \in 1..DiagLen(n, m, k) |-> c]

(* the full abstract store as shown to the replay *)
View(s) == [r \in Reg |-> IF s[r].tag = "none" THEN [tag |-> "none"]
                          ELSE [tag |-> "mat", A |-> s[r].A, lin |-> s[r].lin]]
Log(op, s2, args) == hist' = Append(hist, [op |-> op, args |-> args, store |-> View(s2)])
Put(r, v, op, args) == LET s2 == [store EXCEPT ![r] = v] IN store' = s2 /\ Log(op, s2, args)

LinAdd(a, b, c) == \* a + c*b, linear combinations as functions leaf -> rational
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE [i \in 1..NREG*8 |-> RAdd(a[i], RMul(c, b[i]))]
LinScale(c, a) == IF a = <<>> THEN <<>> ELSE [i \in 1..NREG*8 |-> RMul(c, a[i])]
Leaf(k) == [i \in 1..NREG*8 |-> IF i = k THEN ROne ELSE RZero]

Init == store = [r \in Reg |-> None] /\ hist = <<>> /\ nleaf = 0 /\ rng \in SEEDS

New ==
  /\ nleaf < NREG * 8
    /\ LET r == Dr(4, IF Live = {} \/ Reg \ Live = {} THEN Reg ELSE Reg \ Live)
         \* after the first matrix, mostly the same shape so that sums are possible
         sh == IF Live # {} /\ Dr(5, 1..5) > 1
               THEN LET q == Dr(6, Live) IN <<Rows(store[q].A), Cols(store[q].A)>>
               ELSE Dr(7, SIZES)
         n == sh[1]  m == sh[2]
         ks == LET nk == Dr(8, 1..4) IN {Dr(<<9, x>>, AllOffs(n, m)) : x \in 1..nk}
         fmt == [k \in ks |-> Dr(<<10, k>>, {"array", "scalar"})]
         D == [k \in ks |-> IF fmt[k] = "scalar" THEN ConstDiag(n, m, k) ELSE RandDiag(n, m, k)]
         sc == Dr(11, NZScales)
         A == MScale(sc, FromDiags(n, m, D))
         kseq == SetToSeq(ks)
     IN /\ Put(r, [tag |-> "mat", A |-> A, lin |-> Leaf(nleaf + 1)], "new",
               [r |-> r, n |-> n, m |-> m, scale |-> sc, leaf |-> nleaf + 1,
                diags |-> [x \in 1..Len(kseq) |-> [k |-> kseq[x], fmt |-> fmt[kseq[x]], v |-> D[kseq[x]]]]])
        /\ nleaf' = nleaf + 1

(* The library's Identity class: an object of its own kind that must behave *)
(* like any other matrix.                                                   *)
Ident ==
  /\ nleaf < NREG * 8
  /\ LET r == Dr(4, IF Live = {} \/ Reg \ Live = {} THEN Reg ELSE Reg \ Live)
         sq == {q \in Live : Rows(store[q].A) = Cols(store[q].A)}
         n == IF sq # {} /\ Dr(5, 1..5) > 1 THEN Rows(store[Dr(6, sq)].A) ELSE Dr(7, {s[1] : s \in SIZES})
         sc == Dr(11, NZScales)
     IN /\ Put(r, [tag |-> "mat", A |-> MScale(sc, MIdent(n)), lin |-> <<>>], "ident", [r |-> r, n |-> n, scale |-> sc])
        /\ nleaf' = nleaf + 1

Mt(A, l) == [tag |-> "mat", A |-> A, lin |-> l]
SameShape(a, b) == Rows(store[a].A) = Rows(store[b].A) /\ Cols(store[a].A) = Cols(store[b].A)
PickDst == Dr(12, Reg)

Unary(op) ==
  /\ Live # {}
  /\ LET a == Dr(13, Live)  d == PickDst  s == Dr(14, Scales)  z == Dr(15, NZScales)
         v == store[a]
     IN CASE op = "neg"  -> Put(d, Mt(MScale(-1, v.A), LinScale(-1, v.lin)), "neg", [a |-> a, d |-> d])
          [] op = "copy" -> Put(d, Mt(v.A, v.lin), "copy", [a |-> a, d |-> d])
          [] op = "scale" -> Put(d, Mt(MScale(s, v.A), LinScale(s, v.lin)), "scale",
                                 [a |-> a, d |-> d, s |-> s, side |-> Dr(16, {"left", "right"})])
          [] op = "div"  -> Put(d, Mt(MScale(RDiv(1, z), v.A), LinScale(RDiv(1, z), v.lin)), "div", [a |-> a, d |-> d, s |-> z])
          [] op = "iscale" -> Put(a, Mt(MScale(s, v.A), LinScale(s, v.lin)), "iscale", [a |-> a, s |-> s])
          [] op = "canon" -> Put(a, v, "canon", [a |-> a, how |-> Dr(17, {"incorporate", "sort", "clean", "simplify"})])
  /\ UNCHANGED nleaf

Binary(op) ==
  /\ Live # {}
  /\ LET a == Dr(18, Live)
         cand == {q \in Live : SameShape(a, q)}
         b == Dr(19, IF cand \ {a} = {} \/ Dr(20, 1..6) = 1 THEN cand ELSE cand \ {a})
         d == PickDst
         v == store[a]  w == store[b]
     IN CASE op = "add"  -> Put(d, Mt(MAdd(v.A, w.A), LinAdd(v.lin, w.lin, 1)), "add", [a |-> a, b |-> b, d |-> d])
          [] op = "sub"  -> Put(d, Mt(MSub(v.A, w.A), LinAdd(v.lin, w.lin, -1)), "sub", [a |-> a, b |-> b, d |-> d])
          [] op = "iadd" -> Put(a, Mt(MAdd(v.A, w.A), LinAdd(v.lin, w.lin, 1)), "iadd", [a |-> a, b |-> b])
          [] op = "isub" -> Put(a, Mt(MSub(v.A, w.A), LinAdd(v.lin, w.lin, -1)), "isub", [a |-> a, b |-> b])
  /\ UNCHANGED nleaf

(* A[k] = v on a matrix whose scale has been incorporated; del A[k]        *)
SetDiag ==
  /\ Live # {}
  /\ LET a == Dr(21, Live)  A == store[a].A
         k == Dr(22, AllOffs(Rows(A), Cols(A)))
         fmt == Dr(23, {"array", "scalar"})
         D == IF fmt = "scalar" THEN ConstDiag(Rows(A), Cols(A), k) ELSE RandDiag(Rows(A), Cols(A), k)
         B == MatOf(Rows(A), Cols(A), LAMBDA i, j : IF OnDiag(i, j, k) THEN R(D[DiagIndex(i, j)]) ELSE A[i][j])
     IN Put(a, Mt(B, <<>>), "setdiag", [a |-> a, k |-> k, fmt |-> fmt, v |-> D])
  /\ UNCHANGED nleaf
DelDiag ==
  /\ Live # {}
  /\ LET a == Dr(24, Live)  A == store[a].A
         nz == {k \in AllOffs(Rows(A), Cols(A)) : \E i \in 1..Rows(A), j \in 1..Cols(A) : OnDiag(i, j, k) /\ ~RIsZero(A[i][j])}
     IN /\ Cardinality(nz) > 1
        /\ LET k == Dr(25, nz)
               B == MatOf(Rows(A), Cols(A), LAMBDA i, j : IF OnDiag(i, j, k) THEN RZero ELSE A[i][j])
           IN Put(a, Mt(B, <<>>), "deldiag", [a |-> a, k |-> k])
  /\ UNCHANGED nleaf

(* A[k][i] = v: one stored entry of a diagonal kept as an array             *)
EditDiag ==
  /\ Live # {}
  /\ LET a == Dr(21, Live)  A == store[a].A
         k == Dr(22, AllOffs(Rows(A), Cols(A)))
         x == 1 + Rnd(rng, 43, DiagLen(Rows(A), Cols(A), k))
         v == Dr(44, NonZero)
         B == MatOf(Rows(A), Cols(A), LAMBDA i, j : IF OnDiag(i, j, k) /\ DiagIndex(i, j) = x THEN R(v) ELSE A[i][j])
     IN Put(a, Mt(B, <<>>), "editdiag", [a |-> a, k |-> k, i |-> x, v |-> v])
  /\ UNCHANGED nleaf

(* Observations: the store does not change; the result is part of the log. *)
Vec(c, n) == [i \in 1..n |-> Dr(<<26, c, i>>, -4..4)]
MatVec ==
  /\ Live # {}
  /\ LET a == Dr(27, Live)  A == store[a].A
         xs == [c \in 1..4 |-> Vec(c, Cols(A))]
     IN Put(a, store[a], "matvec",
            [a |-> a, xs |-> xs, ys |-> [c \in 1..4 |-> MVec(A, xs[c])],
             fmt |-> Dr(28, {"csr", "csc", "dia", "python", "default", "star"}),
             ndim |-> Dr(29, 1..3), axis |-> Dr(30, 0..2), cplx |-> Dr(31, BOOLEAN)])
  /\ UNCHANGED nleaf
MatMat ==
  /\ Live # {}
  /\ LET a == Dr(32, Live)
         cand == {q \in Live : Rows(store[q].A) = Cols(store[a].A)}
     IN /\ cand # {}
        /\ LET b == Dr(33, cand) IN
           Put(a, store[a], "matmat", [a |-> a, b |-> b, C |-> MMul(store[a].A, store[b].A)])
  /\ UNCHANGED nleaf
Squares == {r \in Live : Rows(store[r].A) = Cols(store[r].A) /\ Rows(store[r].A) > 1 /\ Pivots(store[r].A) # <<>>}
SolveOp ==
  LET a == Dr(34, Squares)  A == store[a].A
      xs == [c \in 1..4 |-> Vec(c, Cols(A))]
  IN /\ Put(a, store[a], "solve",
             [a |-> a, xs |-> xs, bs |-> [c \in 1..4 |-> MVec(A, xs[c])],
              inplace |-> Dr(35, BOOLEAN), ndim |-> Dr(36, 1..3), axis |-> Dr(37, 0..2), cplx |-> Dr(38, BOOLEAN),
              via |-> Dr(39, {"solve", "solve2", "div"})])
     /\ UNCHANGED nleaf
DenseOp ==
  LET a == Dr(40, Live)
  IN /\ Put(a, store[a], "dense", [a |-> a, fmt |-> Dr(41, {"csr", "csc", "dia", "lil", "coo", "bsr"})])
     /\ UNCHANGED nleaf

(* The operation of a step is drawn from those that are possible, so that  *)
(* a seed determines a behaviour; distinct seeds are distinct behaviours.  *)
Possible(op) == \/ op \in {"new", "ident"} /\ nleaf < NREG * 8
                \/ Live # {} /\ op \notin {"new", "ident", "solve", "deldiag", "matmat"}
                \/ op = "solve" /\ SOLVES /\ Squares # {}
                \/ op = "deldiag" /\ ENABLED DelDiag
                \/ op = "matmat" /\ ENABLED MatMat
Step ==
  LET names == SelectSeq(NAMES, Possible)
      op == RndSeq(rng, "op", names)
  IN CASE op = "new" -> New
       [] op = "ident" -> Ident
       [] op = "editdiag" -> EditDiag
       [] op \in {"neg", "copy", "scale", "div", "iscale", "canon"} -> Unary(op)
       [] op \in {"add", "sub", "iadd", "isub"} -> Binary(op)
       [] op = "setdiag" -> SetDiag
       [] op = "deldiag" -> DelDiag
       [] op = "matvec" -> MatVec
       [] op = "matmat" -> MatMat
       [] op = "solve" -> SolveOp
       [] op = "dense" -> DenseOp
Next == /\ Len(hist) < STEPS
        /\ Step
        /\ rng' = 1 + Rnd(rng, Len(hist), 1000000000)

(* properties of the model itself *)
TypeOK == \A r \in Live : \A i \in 1..Rows(store[r].A) : Len(store[r].A[i]) = Cols(store[r].A)
Untouched == [][ \A r \in Reg : store'[r] # store[r] =>
                   Len(hist') > 0 /\ LET h == hist'[Len(hist')] IN
                   \/ h.op \in {"new", "ident"} /\ h.args.r = r
                   \/ h.op \in {"neg", "copy", "scale", "div", "add", "sub"} /\ h.args.d = r
                   \/ h.op \in {"iscale", "iadd", "isub", "setdiag", "deldiag", "editdiag"} /\ h.args.a = r ]_vars
Emit == (Len(hist) = STEPS /\ EMIT) => PrintT(ToJson([steps |-> hist]))
Spec == Init /\ [][Next]_vars
=============================================================================
