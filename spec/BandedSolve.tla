----------------------------- MODULE BandedSolve -----------------------------
(***************************************************************************)
(* Life of direct solvers of one matrix A.  A is built as a sum of terms   *)
(* c_k * A_k having one band structure; solvers are made from it in every  *)
(* documented way, each one solves any number of systems, with or without  *)
(* constraints (rows replaced by identity rows), while A itself must stay  *)
(* the matrix it was.  A solver is abstractly the pair (matrix, constrained*)
(* rows): the rows are fixed by its first call.                            *)
(*                                                                         *)
(* The right hand side of a call is chosen from the wanted solution x      *)
(* (b = A x on the unconstrained rows, arbitrary on the others), and the   *)
(* invariant Unique states that x is then the only solution, by exact      *)
(* elimination without exchange (module Mat).                              *)
(***************************************************************************)
EXTENDS Mat, Rnd, FiniteSets, Json
CONSTANTS STEPS, SEEDS, KINDS, MAXN, CHECKUNIQUE

VARIABLES A, terms, kind, sol, hist, rng
vars == <<A, terms, kind, sol, hist, rng>>

Offs(k) == CASE k = "DiagMA" -> {0}
             [] k = "TwoDMA" -> {0, 2}
             [] k = "ThreeDMA" -> {0, 2, 4}
             [] k = "TDMA" -> {-2, 0, 2}
             [] k = "TDMA_O" -> {-1, 0, 1}
             [] k = "FDMA" -> {-2, 0, 2, 4}
             [] k = "PDMA" -> {-4, -2, 0, 2, 4}
             [] k = "HeptaDMA" -> {-4, -2, 0, 2, 4, 6, 8}
             [] k = "Solve" -> {-3, -1, 0, 2, 5}
             [] k = "NoMain" -> {-1, 1}
             [] k = "TriSolve" -> {-1, 0, 1}
MinN(k) == CASE k = "DiagMA" -> 1 [] k = "TDMA_O" -> 2 [] k = "TriSolve" -> 3 [] k \in {"TwoDMA", "TDMA"} -> 3
             [] k \in {"ThreeDMA", "FDMA", "PDMA"} -> 5 [] k = "HeptaDMA" -> 9 [] k = "Solve" -> 6 [] k = "NoMain" -> 3

D(r, salt, S) == RndSet(r, salt, S)
Scales == {"2", "-1", "1/2", "-3", "1", "1/4", "3"}
(* entries: the main diagonal of a term dominates its row *)
Main(r, s) == D(r, s, {13, -14, 15, 16, -17})
Off(r, s) == D(r, s, {-2, -1, 1, 2})

NTerms(r) == 1 + Rnd(r, "nterms", 3)
Term(r, k, n, t) ==
  LET const == Rnd(r, <<"const", t>>, 4) = 0
      diag(o) == [i \in 1..DiagLen(n, n, o) |->
                    LET s == IF k = "TDMA_O" THEN (IF o < 0 THEN -o ELSE o) ELSE o   \* symmetric
                        v == IF const THEN 0 ELSE i
                    IN IF o = 0 THEN Main(r, <<t, s, v>>) ELSE Off(r, <<t, s, v>>)]
      offs == IF t = 1 \/ k = "NoMain" THEN Offs(k) ELSE {0} \cup {o \in Offs(k) : IF k = "TDMA_O" THEN TRUE ELSE Rnd(r, <<"use", t, o>>, 2) = 0}
  IN [c |-> IF t = 1 THEN D(r, "c1", Scales) ELSE D(r, <<"c", t>>, {"1/512", "-1/256", "-1/1024"}),
      D |-> [o \in offs |-> diag(o)], const |-> const]
Dense(T, n) == MatOf(n, n, LAMBDA i, j : IF (j - i) \in DOMAIN T.D THEN R(T.D[j - i][DiagIndex(i, j)]) ELSE RZero)
RECURSIVE SumTerms(_, _, _)
SumTerms(Ts, n, t) == IF t = 0 THEN MZero(n, n) ELSE MAdd(SumTerms(Ts, n, t - 1), MScale(Ts[t].c, Dense(Ts[t], n)))

N == Len(A)
TermLog(T) == LET os == SetToSeq(DOMAIN T.D) IN
  [c |-> T.c, const |-> T.const, diags |-> [x \in 1..Len(os) |-> [k |-> os[x], v |-> T.D[os[x]]]]]

Init == /\ rng \in SEEDS
        /\ kind = RndSeq(rng, "kind", KINDS)
        /\ LET n == IF kind = "NoMain" THEN 3 + 2 * Rnd(rng, "up", 3) ELSE MinN(kind) + Rnd(rng, "n", Rnd(rng, "up", MAXN) + 1)
           IN /\ terms = [t \in 1..(IF kind = "NoMain" THEN 1 ELSE NTerms(rng)) |-> Term(rng, kind, n, t)]
              /\ A = SumTerms(terms, n, Len(terms))
              /\ hist = <<[op |-> "matrix", kind |-> kind, n |-> n, A |-> A,
                           terms |-> [t \in 1..Len(terms) |-> TermLog(terms[t])]]>>
        /\ sol = <<>>

MaxSol == 4
Make ==
  /\ Len(sol) < MaxSol
  /\ LET v == D(rng, "via", {"solve", "class", "Solver", "Solverlist", "Generic", "classlist"})
             \* every handle made through "solve" is the one solver cached in A
        old == {p \in 1..Len(sol) : sol[p].via = "solve"}
     IN /\ sol' = Append(sol, IF v = "solve" /\ old # {} THEN sol[CHOOSE p \in old : TRUE]
                              ELSE [via |-> v, rows |-> <<>>, fixed |-> FALSE])
        /\ hist' = Append(hist, [op |-> "make", via |-> v])

Replace(M, rows) == [i \in 1..Len(M) |-> IF \E x \in 1..Len(rows) : rows[x] = i - 1 THEN MIdent(Len(M))[i] ELSE M[i]]
Vec(c, n) == [i \in 1..n |-> D(rng, <<"x", c, i>>, -4..4)]
IsGeneric(s) == s.via = "Generic" \/ kind \in {"Solve", "NoMain"}
Solve ==
  /\ Len(sol) > 0
  /\ LET q == 1 + Rnd(rng, "which", Len(sol))
         s == sol[q]
         n == N
         free == RndSeq(rng, "cons", <<"none", "none", "first", "one", "two">>)
         \* via "solve" shares the solver cached in A with every other such handle
         rows == IF kind = "NoMain" THEN <<0>>
                 ELSE IF s.fixed THEN s.rows
                 ELSE IF free = "none" THEN <<>>
                 ELSE IF ~IsGeneric(s) \/ free = "first" THEN <<0>>
                 ELSE IF free = "one" \/ n < 2 THEN <<Rnd(rng, "row", n)>>
                 ELSE LET r1 == Rnd(rng, "row", n) IN <<r1, (r1 + 1 + Rnd(rng, "row2", n - 1)) % n>>
         val == [x \in 1..Len(rows) |-> D(rng, <<"val", x>>, -3..5)]
         fix(x) == [i \in 1..n |-> IF \E c \in 1..Len(rows) : rows[c] = i - 1
                                  THEN val[CHOOSE c \in 1..Len(rows) : rows[c] = i - 1] ELSE x[i]]
         xs == [c \in 1..4 |-> fix(Vec(c, n))]
         \* arbitrary data in the constrained rows of the right hand side
         rhs(x) == LET b == MVec(A, x) IN
                   [i \in 1..n |-> IF \E c \in 1..Len(rows) : rows[c] = i - 1 THEN R(7 + i) ELSE b[i]]
     IN /\ sol' = [p \in 1..Len(sol) |-> IF p = q \/ (s.via = "solve" /\ sol[p].via = "solve")
                                          THEN [sol[p] EXCEPT !.rows = rows, !.fixed = TRUE] ELSE sol[p]]
        /\ hist' = Append(hist,
             [op |-> "call", q |-> q, rows |-> rows, val |-> val, xs |-> xs, bs |-> [c \in 1..4 |-> rhs(xs[c])],
              inplace |-> D(rng, "ip", BOOLEAN), ndim |-> 1 + Rnd(rng, "nd", 4), axis |-> Rnd(rng, "ax", 4),
              cplx |-> D(rng, "cx", BOOLEAN), extra |-> D(rng, "ex", {0, 2}), mode |-> D(rng, "mode", {"cython", "numba", "python"})])

Next == /\ Len(hist) < STEPS
        /\ UNCHANGED <<A, terms, kind>>
        /\ IF sol = <<>> \/ (Len(sol) < MaxSol /\ Rnd(rng, "mk", 4) = 0) THEN Make ELSE Solve
        /\ rng' = 1 + Rnd(rng, Len(hist), 1000000000)

(* The promised result is the only solution (bounded sizes: exact arithmetic is slow) *)
Unique == CHECKUNIQUE /\ hist # <<>> /\ hist[Len(hist)].op = "call" =>
  LET h == hist[Len(hist)]
      M == Replace(A, h.rows)
      b == [i \in 1..N |-> IF \E c \in 1..Len(h.rows) : h.rows[c] = i - 1 THEN R(h.val[CHOOSE c \in 1..Len(h.rows) : h.rows[c] = i - 1]) ELSE h.bs[1][i]]
  IN (kind # "NoMain" => Pivots(M) # <<>>) /\ MSolve(M, b) = [i \in 1..N |-> R(h.xs[1][i])]
Emit == Len(hist) = STEPS => PrintT(ToJson([steps |-> hist]))
=============================================================================
