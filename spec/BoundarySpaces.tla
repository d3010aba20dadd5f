--------------------------- MODULE BoundarySpaces ---------------------------
(***************************************************************************)
(* Spaces with boundary conditions.  A behaviour picks a family, a size, a *)
(* physical domain and a set of conditions on the value, derivatives or    *)
(* weighted combinations (R: u + c u' = d, W: u' + c u'' = d) at either    *)
(* end.  Each condition is an exact linear functional on the polynomials   *)
(* of the orthogonal basis.  The states that follow prescribe values: those*)
(* of a polynomial p + t q, so that a function with these values exists    *)
(* and is known at every time t; and values that vary along another axis.  *)
(***************************************************************************)
EXTENDS Families, Mat, Rnd, FiniteSets, Json
CONSTANTS SEEDS, FAMS, MAXN, VALUES

VARIABLES rng, fam, n, dom, conds, L, hist
vars == <<rng, fam, n, dom, conds, L, hist>>

C(side, kind) == [side |-> side, kind |-> kind]
l(kind) == C("left", kind)
r(kind) == C("right", kind)
CondSets == <<
  <<l("D"), r("D")>>, <<l("N"), r("N")>>, <<l("D"), r("N")>>, <<l("N"), r("D")>>, <<l("D")>>, <<r("D")>>,
  <<l("D"), l("N")>>, <<r("D"), r("N")>>, <<l("D"), l("N"), r("D"), r("N")>>, <<l("D"), l("N"), r("N2"), r("N3")>>,
  <<l("D"), l("N"), l("N2"), r("D"), r("N"), r("N2")>>, <<l("D"), l("N2"), r("D"), r("N2")>>,
  <<l("R"), r("R")>>, <<l("R"), r("D")>>, <<l("N"), r("R")>>, <<l("D"), r("W")>>, <<l("W"), r("R")>>, <<l("W"), r("W")>>,
  <<l("D"), r("D"), r("N")>>, <<l("N"), r("D"), r("N2")>>, <<l("D"), l("N"), r("D")>>, <<l("N")>>, <<l("R")>>,
  <<l("D"), l("N3"), r("D"), r("N3")>>, <<l("D"), r("D"), r("N4")>>, <<l("D"), l("N4"), r("D"), r("N")>>,
  <<l("D"), l("N"), l("N2"), l("N3"), r("D"), r("N"), r("N2"), r("N3")>>, <<l("D"), r("N5"), r("D")>>,
  <<l("D"), r("D"), l("N2")>>, <<l("N"), l("N2"), r("N"), r("N2")>>, <<l("D"), l("N"), r("D"), r("R")>> >>
LaSets == << <<l("D")>>, <<l("N")>>, <<l("R")>> >>
Common == 11     \* the first ones have classes of their own in some families

Order(kind) == CASE kind = "D" -> 0 [] kind = "R" -> 0 [] kind = "N" -> 1 [] kind = "W" -> 1
                 [] kind = "N2" -> 2 [] kind = "N3" -> 3 [] kind = "N4" -> 4 [] OTHER -> 5

Domains == <<<<-1, 1>>, <<0, 1>>, <<-2, 2>>, <<1, 4>>, <<"-1/2", "1/2">>, <<-3, 2>>, <<0, 3>>>>

Pick(s, salt, S) ==
  LET f == RndSet(s, <<salt, "f">>, S) IN
  Fam(f, IF f = "Q" THEN RndSet(s, <<salt, "al">>, {"0", "1", "2"}) ELSE RndSet(s, <<salt, "al">>, {"0", "1"}),
      RndSet(s, <<salt, "be">>, {"0", "1"}))

(* Value of functional c on the j-th basis function, physical derivatives  *)
Half == IF fam.f = "La" THEN ROne ELSE RDiv(RSub(dom[2], dom[1]), 2)
EndOf(c) == IF fam.f = "La" THEN RZero ELSE IF c.side = "left" THEN "-1" ELSE "1"
At(p, k, c) == RMul(RPow(Half, -k), PEval(DifN(fam, p, k), EndOf(c)))
Functional(c, p) == IF c.kind \in {"R", "W"}
                    THEN RAdd(At(p, Order(c.kind), c), RMul(c.c, At(p, Order(c.kind) + 1, c)))
                    ELSE At(p, Order(c.kind), c)
Q == Basis(fam, n)

Init == /\ rng \in SEEDS
        /\ fam = Pick(rng, "fam", FAMS)
        /\ dom = RndSeq(rng, "dom", Domains)
        /\ conds = LET S == IF fam.f = "La" THEN LaSets
                            ELSE IF Rnd(rng, "common", 2) = 0 THEN SubSeq(CondSets, 1, Common) ELSE CondSets
                       cs == RndSeq(rng, "conds", S)
                   IN [i \in 1..Len(cs) |-> [side |-> cs[i].side, kind |-> cs[i].kind,
                                             c |-> R(RndSet(rng, <<"c", i>>, {"1", "2", "-1", "1/2", "3", "-3/2"}))]]
        /\ n = Len(conds) + 3 + Rnd(rng, "n", MAXN - Len(conds) - 2)
        /\ L = <<>>
        /\ hist = <<>>

Dim == n - Len(conds)
(* The narrowest basis functions are combinations of Q_k .. Q_{k+m}; they  *)
(* exist uniquely at every k where this system is regular                  *)
Sub(k) == [i \in 1..Len(conds) |-> [j \in 1..Len(conds) |-> L[i][k + j]]]
Functionals ==
  /\ hist = <<>>
  /\ L' = [i \in 1..Len(conds) |-> [j \in 1..n |-> Functional(conds[i], Q[j])]]
  /\ UNCHANGED <<rng, fam, n, dom, conds>>
  /\ hist' = <<[op |-> "space", fam |-> fam, n |-> n, conds |-> conds, L |-> L',
                dom |-> IF fam.f = "La" THEN <<"0", "0">> ELSE <<R(dom[1]), R(dom[2])>>,
                singular |-> {k \in 0..(Dim - 1) :
                   Pivots([i \in 1..Len(conds) |-> [j \in 1..Len(conds) |-> L'[i][k + j + 1]]]) = <<>>
                   /\ MInv([i \in 1..Len(conds) |-> [j \in 1..Len(conds) |-> L'[i][k + j + 1]]]) = <<>>}]>>

Coef(salt, i) == R(RndSet(rng, <<salt, Len(hist), i>>, {"0", "1", "-1", "2", "1/2", "-3"}))
RndPoly(salt) == [i \in 1..n |-> Coef(salt, i)]
Values ==
  /\ hist # <<>> /\ Len(hist) <= VALUES
  /\ LET p == RndPoly("p")
         q == RndPoly("q")
     IN hist' = Append(hist, [op |-> "values", p |-> p, q |-> q, d |-> MVec(L, p), e |-> MVec(L, q),
                              times |-> <<RZero, R(RndSet(rng, <<"t", Len(hist)>>, {"1", "2", "1/2", "-1"}))>>])
  /\ UNCHANGED <<rng, fam, n, dom, conds, L>>
(* Values along another axis: p + q g1(y) + s g2(y)                        *)
Tensor ==
  /\ Len(hist) = VALUES + 1
  /\ LET p == RndPoly("p")
         q == RndPoly("q")
         s == RndPoly("s")
     IN hist' = Append(hist, [op |-> "tensor", polys |-> <<p, q, s>>, vals |-> <<MVec(L, p), MVec(L, q), MVec(L, s)>>,
              other |-> RndSet(rng, "other", {"F", "Fc", "P", "B", "I"}),
              k1 |-> RndIn(rng, "k1", 1, 3), k2 |-> RndIn(rng, "k2", 1, 3), first |-> RndBool(rng, "first"),
              third |-> RndBool(rng, "third"), t |-> R(RndSet(rng, "tt", {"1", "2", "1/2"}))])
  /\ UNCHANGED <<rng, fam, n, dom, conds, L>>
Next == Functionals \/ Values \/ Tensor

(* There are Dim independent functions satisfying the homogeneous          *)
(* conditions: the conditions are independent functionals (some choice of  *)
(* columns is regular)                                                     *)
RECURSIVE Rank(_)
Rank(A) ==      \* by elimination on rows
  IF Len(A) = 0 THEN 0
  ELSE LET nz == {j \in 1..Len(A[1]) : ~RIsZero(A[1][j])} IN
       IF nz = {} THEN Rank(Tail(A))
       ELSE LET j == CHOOSE k \in nz : \A k2 \in nz : k <= k2
            IN 1 + Rank([i \in 1..(Len(A) - 1) |-> RAxpy(RNeg(RDiv(A[i + 1][j], A[1][j])), A[1], A[i + 1])])
Independent == hist # <<>> => Rank(L) = Len(conds)
(* Values prescribed are attained, by p + t q *)
Attained == hist # <<>> /\ Last(hist).op = "values" =>
   \A i \in 1..Len(Last(hist).times) :
     LET t == Last(hist).times[i] IN
     MVec(L, RAxpy(t, Last(hist).q, Last(hist).p)) = RAxpy(t, Last(hist).e, Last(hist).d)
Emit == Len(hist) = VALUES + 2 => PrintT(ToJson([steps |-> hist]))
=============================================================================
