-------------------------------- MODULE Mat --------------------------------
(* Dense exact matrices: sequences of rows of rationals (module Rat).      *)
EXTENDS Rat, Integers, Sequences, TLC, SequencesExt

Rows(A) == Len(A)
Cols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
MatOf(n, m, F(_, _)) == [i \in 1..n |-> [j \in 1..m |-> F(i, j)]]
MZero(n, m) == [i \in 1..n |-> [j \in 1..m |-> RZero]]
MIdent(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN ROne ELSE RZero]]
MAdd(A, B) == [i \in 1..Len(A) |-> RVAdd(A[i], B[i])]
MSub(A, B) == [i \in 1..Len(A) |-> RVSub(A[i], B[i])]
MScale(c, A) == [i \in 1..Len(A) |-> RScale(c, A[i])]
MTrans(A) == [j \in 1..Cols(A) |-> [i \in 1..Len(A) |-> A[i][j]]]
MVec(A, x) == [i \in 1..Len(A) |-> RDot(A[i], x)]
MMul(A, B) == LET T == MTrans(B) IN [i \in 1..Len(A) |-> [j \in 1..Len(T) |-> RDot(A[i], T[j])]]

(* Diagonal k of an n x m matrix: entries (i, i+k), 1-based i.             *)
DiagLen(n, m, k) == IF k >= 0 THEN (IF n < m - k THEN n ELSE m - k)
                              ELSE (IF n + k < m THEN n + k ELSE m)
OnDiag(i, j, k) == j - i = k
DiagIndex(i, j) == IF j >= i THEN i ELSE j       \* position of (i,j) on its diagonal

(* Gaussian elimination with row exchange: the solution of A x = b, or     *)
(* <<>> when A is singular.                                                *)
RECURSIVE Elim(_, _)
Elim(M, k) ==   \* M: augmented rows; eliminate column k and below (reduced form)
  LET n == Len(M) IN
  IF k > n THEN M
  ELSE LET cand == {i \in k..n : ~RIsZero(M[i][k])} IN
       IF cand = {} THEN <<>>
       ELSE LET p == CHOOSE i \in cand : \A j \in cand : i <= j
                S == [M EXCEPT ![k] = M[p], ![p] = M[k]]
                r == RScale(RDiv(1, S[k][k]), S[k])
                E == [i \in 1..n |-> IF i = k THEN r ELSE RAxpy(RNeg(S[i][k]), r, S[i])]
            IN Elim(E, k + 1)
MSolve(A, b) == LET E == Elim([i \in 1..Len(A) |-> Append(A[i], b[i])], 1)
                IN IF E = <<>> THEN <<>> ELSE [i \in 1..Len(A) |-> E[i][Len(A) + 1]]
MInv(A) == LET n == Len(A)
               E == Elim([i \in 1..n |-> A[i] \o MIdent(n)[i]], 1)
           IN IF E = <<>> THEN <<>> ELSE [i \in 1..n |-> SubSeq(E[i], n + 1, 2 * n)]

(* Pivots of LU without exchange; <<>> when some leading minor vanishes.   *)
RECURSIVE PivotsFrom(_, _)
PivotsFrom(M, acc) ==
  IF Len(M) = 0 THEN acc
  ELSE IF RIsZero(M[1][1]) THEN <<>>
  ELSE LET p == M[1][1]
           S == [i \in 1..(Len(M) - 1) |->
                  Tail(RAxpy(RNeg(RDiv(M[i + 1][1], p)), M[1], M[i + 1]))]
       IN PivotsFrom(S, Append(acc, p))
Pivots(A) == PivotsFrom(A, <<>>)
=============================================================================
