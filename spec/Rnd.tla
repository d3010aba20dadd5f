-------------------------------- MODULE Rnd --------------------------------
(***************************************************************************)
(* Deterministic pseudo-random choice.  RandomElement may be evaluated     *)
(* again for every use of a LET definition; Rnd(seed, salt, n) is a        *)
(* function of its arguments (a hash), so a definition that uses it is a   *)
(* constant of the state.  Specifications keep the seed in a variable.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Rnd(seed, salt, n) == CHOOSE x \in 0..(n - 1) : TRUE  \* evaluated by the Java override
RndSeq(seed, salt, s) == s[1 + Rnd(seed, salt, Len(s))]
RndSet(seed, salt, S) == SetToSeq(S)[1 + Rnd(seed, salt, Cardinality(S))]
RndBool(seed, salt) == Rnd(seed, salt, 2) = 0
RndIn(seed, salt, a, b) == a + Rnd(seed, salt, b - a + 1)
=============================================================================
