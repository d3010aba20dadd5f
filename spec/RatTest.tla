------------------------------ MODULE RatTest ------------------------------
(* Checks the Java-evaluated operators of Rat against a pure TLA+ model of *)
(* the rationals (pairs of small integers), exhaustively for small pairs.  *)
EXTENDS Rat, TLC, FiniteSets
CONSTANT B
Abs(x) == IF x < 0 THEN -x ELSE x
Gcd[a \in 0..1000, b \in 0..1000] == IF b = 0 THEN a ELSE Gcd[b, a % b]
Norm(p) == LET s == IF p[2] < 0 THEN -1 ELSE 1
               g == Gcd[Abs(p[1]), Abs(p[2])]
           IN <<(s * p[1]) \div g, (s * p[2]) \div g>>
Str(p) == LET q == Norm(p) IN IF q[2] = 1 THEN ToString(q[1]) ELSE ToString(q[1]) \o "/" \o ToString(q[2])
Pairs == (-B..B) \X (1..B)
VARIABLES a, b
Init == a \in Pairs /\ b \in Pairs
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
Agree ==
  LET x == Str(a) y == Str(b) IN
  /\ RFrac(a[1], a[2]) = x
  /\ R(x) = x
  /\ RAdd(x, y) = Str(<<a[1]*b[2] + b[1]*a[2], a[2]*b[2]>>)
  /\ RSub(x, y) = Str(<<a[1]*b[2] - b[1]*a[2], a[2]*b[2]>>)
  /\ RMul(x, y) = Str(<<a[1]*b[1], a[2]*b[2]>>)
  /\ (b[1] # 0 => RDiv(x, y) = Str(<<a[1]*b[2], a[2]*b[1]>>))
  /\ RNeg(x) = Str(<<-a[1], a[2]>>)
  /\ RAbs(x) = Str(<<Abs(a[1]), a[2]>>)
  /\ RLeq(x, y) = (a[1]*b[2] <= b[1]*a[2])
  /\ RPow(x, 2) = RMul(x, x) /\ RPow(x, 0) = "1"
  /\ RSum(<<x, y, x>>) = RAdd(x, RAdd(y, x))
  /\ RDot(<<x, y>>, <<y, x, 1>>) = RAdd(RMul(x, y), RMul(y, x))
  /\ RConv(<<x, 1>>, <<y, 1>>) = <<RMul(x, y), RAdd(x, y), "1">>
  /\ RAxpy(x, <<y, 1>>, <<1>>) = <<RAdd(RMul(x, y), 1), x>>
=============================================================================
