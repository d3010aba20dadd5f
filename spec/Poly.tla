-------------------------------- MODULE Poly --------------------------------
(* Polynomials with rational coefficients: <<c0, c1, ...>> is c0 + c1 x + ... *)
EXTENDS Rat, Integers, Sequences, TLC, SequencesExt

PTrim(p) == LET nz == {i \in 1..Len(p) : ~RIsZero(p[i])}
            IN IF nz = {} THEN <<>> ELSE SubSeq(p, 1, CHOOSE i \in nz : \A j \in nz : j <= i)
PZero == <<>>
POne == <<ROne>>
PX == <<RZero, ROne>>
PAdd(p, q) == RAxpy(1, p, q)
PScale(c, p) == RScale(c, p)
PSub(p, q) == RAxpy(-1, q, p)
PMul(p, q) == IF p = <<>> \/ q = <<>> THEN <<>> ELSE RConv(p, q)
PShift(p) == IF p = <<>> THEN p ELSE <<RZero>> \o p
PDiff(p) == IF Len(p) <= 1 THEN <<>> ELSE [i \in 1..(Len(p) - 1) |-> RMul(i, p[i + 1])]
RECURSIVE PDiffN(_, _)
PDiffN(p, k) == IF k = 0 THEN p ELSE PDiffN(PDiff(p), k - 1)
PEval(p, x) == FoldRight(LAMBDA c, acc : RAdd(c, RMul(x, acc)), p, RZero)
(* p(c0 + c1 x) *)
PCompose(p, c0, c1) == FoldRight(LAMBDA c, acc : PAdd(<<R(c)>>, PMul(<<R(c0), R(c1)>>, acc)), p, <<>>)
RECURSIVE PPow(_, _)
PPow(p, k) == IF k = 0 THEN POne ELSE PMul(p, PPow(p, k - 1))
PEq(p, q) == PTrim(p) = PTrim(q)
PInt(p) == <<RZero>> \o [i \in 1..Len(p) |-> RDiv(p[i], i)]      \* antiderivative
PPad(p, n) == [i \in 1..n |-> IF i <= Len(p) THEN R(p[i]) ELSE RZero]
PCoef(p, i) == IF i + 1 <= Len(p) THEN R(p[i + 1]) ELSE RZero
=============================================================================
