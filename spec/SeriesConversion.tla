-------------------------- MODULE SeriesConversion --------------------------
(***************************************************************************)
(* Conversions between Legendre and Chebyshev series.  The state is a      *)
(* vector (the coefficients of one polynomial in one of the two bases, or  *)
(* a functional on the other kind of coefficients after a transposed call) *)
(* and the planned conversions.  Small vectors are converted exactly; for  *)
(* large ones the log holds the few nonzero entries, and the entries of    *)
(* the matrix are  M[n-2j, n] = c a_j a_{n-j},  a_k = (2k)!/(4^k k!^2) ,   *)
(* which is checked here against the recurrences of both families.         *)
(***************************************************************************)
EXTENDS Poly, Rnd, FiniteSets, Json
CONSTANTS SEEDS, NS, NBIG, STEPS

VARIABLES rng, n, big, vec, hist
vars == <<rng, n, big, vec, hist>>

\* tables up to degree T
T == 20
LegSeq == LET RECURSIVE F(_) F(s) == LET m == Len(s) IN IF m > T THEN s ELSE
            F(Append(s, PSub(PScale(RFrac(2 * m - 1, m), PMul(<<RZero, ROne>>, s[m])), PScale(RFrac(m - 1, m), s[m - 1]))))
          IN F(<<<<ROne>>, <<RZero, ROne>>>>)
ChebSeq == LET RECURSIVE F(_) F(s) == LET m == Len(s) IN IF m > T THEN s ELSE
            F(Append(s, PSub(PScale(R("2"), PMul(<<RZero, ROne>>, s[m])), s[m - 1])))
          IN F(<<<<ROne>>, <<RZero, ROne>>>>)
A == LET RECURSIVE F(_) F(s) == LET k == Len(s) IN IF k > T THEN s ELSE F(Append(s, RMul(s[k], RFrac(2 * k - 1, 2 * k)))) IN F(<<ROne>>)
\* L_j = \sum_i L2C(i, j) T_i
L2C(i, j) == IF i > j \/ (j - i) % 2 = 1 THEN RZero
             ELSE RMul(IF i = 0 THEN ROne ELSE R("2"), RMul(A[(j - i) \div 2 + 1], A[(j + i) \div 2 + 1]))
L2CMat == TLCEval([i \in 1..(T + 1) |-> [j \in 1..(T + 1) |-> L2C(i - 1, j - 1)]])
\* the inverse, from back substitution (upper triangular)
C2LMat == LET RECURSIVE F(_, _)
              \* row i of the inverse from the rows below it
              F(i, rows) == IF i = 0 THEN rows ELSE
                 LET r == TLCEval([j \in 1..(T + 1) |-> IF j < i THEN RZero ELSE
                            RDiv(RSub(IF i = j THEN ROne ELSE RZero,
                                 FoldLeft(LAMBDA s, k : IF k <= i THEN s ELSE RAdd(s, RMul(L2CMat[i][k], rows[k - i][j])), RZero, [k \in 1..(T + 1) |-> k])), L2CMat[i][i])])
                 IN F(i - 1, <<r>> \o rows)
          IN F(T + 1, <<>>)
Apply(M, v) == [i \in 1..Len(v) |-> RDot(SubSeq(M[i], 1, Len(v)), v)]
ApplyT(M, v) == [i \in 1..Len(v) |-> RDot([j \in 1..Len(v) |-> M[j][i]], v)]

Draw(s) == [i \in 1..n |-> IF RndIn(rng, <<"z", s, i>>, 0, 2) = 0 THEN RZero ELSE RndSet(rng, <<"v", s, i>>, {"1", "-1", "2", "1/2", "-3", "3/4"})]
Sparse(s) == LET m == RndIn(rng, <<"m", s>>, 1, 5) IN
  [k \in 1..m |-> [at |-> RndSeq(rng, <<"at", s, k>>, <<0, n - 1, n - 2, RndIn(rng, <<"a1", s, k>>, 0, n - 1), RndIn(rng, <<"a2", s, k>>, 0, n - 1), RndIn(rng, <<"a3", s, k>>, 0, n \div 2)>>),
                   v |-> RndSet(rng, <<"sv", s, k>>, {"1", "-1", "2", "1/2"})]]
Init == /\ rng \in SEEDS
        /\ big = (RndIn(rng, "big", 0, 2) = 0)
        /\ n = IF big THEN RndSet(rng, "n", NBIG) ELSE RndSet(rng, "n", NS)
        /\ vec = <<>> /\ hist = <<>>
S == Len(hist)
Plan == /\ S = 0
        /\ vec' = IF big THEN <<>> ELSE Draw(0)
        /\ hist' = <<[op |-> "plan", n |-> n, big |-> big,
              dims |-> RndSeq(rng, "dims", <<1, 1, 2, 3>>), axis |-> RndIn(rng, "axis", 0, 2), cplx |-> RndBool(rng, "cplx"),
              domains |-> RndSeq(rng, "dom", <<0, 0, 2, 3>>), levels |-> RndSeq(rng, "lev", <<0, 1, 2, 3>>), maxs |-> RndSeq(rng, "maxs", <<10, 25, 100>>),
              direct |-> RndBool(rng, "direct"), diagonals |-> RndSeq(rng, "diag", <<8, 16, 4>>),
              order |-> RndBool(rng, "order"),
              negaxis |-> RndIn(rng, "na", 0, 3) = 0]>>
        /\ UNCHANGED <<rng, n, big>>
Algs == <<"fun", "Leg2Cheb", "FMM", "HT", "fun", "Leg2Cheb", "FMM", "HT", "dlt">>
Call == /\ S > 0 /\ S <= STEPS
        /\ LET kind == RndSeq(rng, <<"kind", S>>, <<"l2c", "l2c", "l2cT", "c2l", "c2l">>)
               alg == RndSeq(rng, <<"alg", S>>, Algs)
               inp == IF big THEN Sparse(S) ELSE IF RndBool(rng, <<"chain", S>>) THEN vec ELSE Draw(S)
               out == IF big THEN <<>> ELSE CASE kind = "l2c" -> Apply(L2CMat, inp) [] kind = "l2cT" -> ApplyT(L2CMat, inp) [] OTHER -> Apply(C2LMat, inp)
           IN /\ vec' = out
              /\ hist' = Append(hist, [op |-> kind, alg |-> alg, inp |-> inp, out |-> out, given |-> RndBool(rng, <<"given", S>>),
                                       mode |-> RndSeq(rng, <<"mode", S>>, <<"cython", "cython", "numba", "python">>),
                                       scale |-> RndSet(rng, <<"scale", S>>, {"1", "-2", "1/4"})])
        /\ UNCHANGED <<rng, n, big>>
Next == Plan \/ Call
Spec == Init /\ [][Next]_vars

\* the closed form is the change of basis
Basis == hist # <<>> \/ \A j \in 0..T : PEq(LegSeq[j + 1], FoldLeft(LAMBDA p, i : PAdd(p, PScale(L2CMat[i + 1][j + 1], ChebSeq[i + 1])), <<>>, [i \in 1..(T + 1) |-> i - 1]))
InverseOk == \A k \in 2..Len(hist) : LET h == hist[k] IN
   (~big /\ h.op = "l2c" => Apply(C2LMat, h.out) = h.inp) /\ (~big /\ h.op = "c2l" => Apply(L2CMat, h.out) = h.inp)
\* the same polynomial, at a point
Same == \A k \in 2..Len(hist) : LET h == hist[k]
            val(S0, v) == FoldLeft(LAMBDA s, i : RAdd(s, RMul(v[i], PEval(S0[i], "1/3"))), RZero, [i \in 1..Len(v) |-> i])
         IN ~big => CASE h.op = "l2c" -> val(LegSeq, h.inp) = val(ChebSeq, h.out)
                      [] h.op = "c2l" -> val(ChebSeq, h.inp) = val(LegSeq, h.out)
                      [] OTHER -> TRUE
Adjoint == \A k \in 2..Len(hist) : LET h == hist[k] w == [i \in 1..n |-> RFrac(i, 2)] dot(x, y) == FoldLeft(LAMBDA s, i : RAdd(s, RMul(x[i], y[i])), RZero, [i \in 1..n |-> i])
         IN (~big /\ h.op = "l2cT") => dot(h.out, w) = dot(h.inp, Apply(L2CMat, w))
Emit == Len(hist) = STEPS + 1 => PrintT(ToJson([steps |-> hist]))
=============================================================================
