-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational numbers.  TLC's integers are 32-bit, so a rational is    *)
(* represented by the string "n" or "n/d" in lowest terms (d > 1), which   *)
(* makes TLA+ equality of strings equality of rationals.  An integer may   *)
(* be given wherever a rational is expected.  TLC evaluates the operators  *)
(* below with the Java overrides in java/shenspec/RatOverrides.java;       *)
(* module RatTest states (and TLC checks) the field axioms and agreement   *)
(* with a pure TLA+ definition on pairs of small integers.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

R(a)        == CHOOSE s \in STRING : TRUE   \* canonical form of int or string
RFrac(a, b) == CHOOSE s \in STRING : TRUE   \* a / b
RAdd(a, b)  == CHOOSE s \in STRING : TRUE
RSub(a, b)  == CHOOSE s \in STRING : TRUE
RNeg(a)     == CHOOSE s \in STRING : TRUE
RMul(a, b)  == CHOOSE s \in STRING : TRUE
RDiv(a, b)  == CHOOSE s \in STRING : TRUE
RPow(a, k)  == CHOOSE s \in STRING : TRUE   \* k an integer
RLeq(a, b)  == CHOOSE t \in BOOLEAN : TRUE
RRound(a, n) == CHOOSE s \in STRING : TRUE  \* nearest multiple of 10^-n, up when half
RAbs(a)     == CHOOSE s \in STRING : TRUE
RDot(s, t)  == CHOOSE r \in STRING : TRUE   \* \sum_i s[i] * t[i]
RSum(s)     == CHOOSE r \in STRING : TRUE   \* \sum_i s[i]
RConv(s, t) == CHOOSE r \in Seq(STRING) : TRUE  \* product of polynomials
RAxpy(a, s, t) == CHOOSE r \in Seq(STRING) : TRUE \* a*s + t elementwise, zero padded

RZero == "0"
ROne  == "1"
RLt(a, b) == RLeq(a, b) /\ R(a) # R(b)
RMax(a, b) == IF RLeq(a, b) THEN b ELSE a
RMin(a, b) == IF RLeq(a, b) THEN a ELSE b
RIsZero(a) == R(a) = RZero
RScale(a, s) == RAxpy(a, s, <<>>)
RVAdd(s, t) == RAxpy(1, s, t)
RVSub(s, t) == RAxpy(-1, t, s)
=============================================================================
