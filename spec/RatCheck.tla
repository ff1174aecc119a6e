------------------------------ MODULE RatCheck ------------------------------
(* Checks the Java override of Rat against TLA+ integer arithmetic and the   *)
(* field axioms, on every pair (triple) of small fractions.                  *)
EXTENDS Rat
VARIABLES a, b
N == -4..4
D == 1..4
F == [n : N, d : D]
R(f) == RDiv(RInt(f.n), RInt(f.d))
Same(r, n, d) == REq(r, RDiv(RInt(n), RInt(d)))
Init == a \in F /\ b \in F
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
x == R(a)
y == R(b)
Arith ==
    /\ Same(RAdd(x, y), a.n * b.d + b.n * a.d, a.d * b.d)
    /\ Same(RSub(x, y), a.n * b.d - b.n * a.d, a.d * b.d)
    /\ Same(RMul(x, y), a.n * b.n, a.d * b.d)
    /\ b.n # 0 => Same(RDiv(x, y), a.n * b.d, a.d * b.n)
    /\ RLe(x, y) <=> a.n * b.d <= b.n * a.d
    /\ RLt(x, y) <=> a.n * b.d < b.n * a.d
    /\ (x = y) <=> (a.n * b.d = b.n * a.d)         \* lowest terms is canonical
    /\ RSign(x) = (IF a.n > 0 THEN 1 ELSE IF a.n < 0 THEN -1 ELSE 0)
    /\ RNear(x, y, RAbs(RSub(x, y)))
    /\ x # y => ~RNear(x, y, RMul("1/2", RAbs(RSub(x, y))))
Axioms ==
    \A c \in [n : {-3, 0, 2}, d : {1, 3}] :
        LET z == R(c) IN
        /\ RAdd(x, y) = RAdd(y, x)
        /\ RMul(x, y) = RMul(y, x)
        /\ RMul(x, RAdd(y, z)) = RAdd(RMul(x, y), RMul(x, z))
        /\ RAdd(x, RAdd(y, z)) = RAdd(RAdd(x, y), z)
        /\ RSum(<<x, y, z>>) = DefSum(<<x, y, z>>)
        /\ RProd(<<x, y, z>>) = DefProd(<<x, y, z>>)
        /\ RDot(<<x, y, z>>, <<z, x, y>>) = DefDot(<<x, y, z>>, <<z, x, y>>)
        /\ RQuad(<<x, y>>, <<<<z, y, x>>, <<x, z, y>>>>, <<y, z, x>>) =
           DefQuad(<<x, y>>, <<<<z, y, x>>, <<x, z, y>>>>, <<y, z, x>>)
Powers == /\ \A k \in -5..5 : (x # "0" \/ k >= 0) => RPow(x, k) = DefPow(x, k)
          /\ RIsInt(x) <=> a.n % a.d = 0
          /\ RPow("0", -1) = "undef"
          /\ RRoot(RMul(x, x)) = RAbs(x)
          /\ LET r == RRoot(x) IN IF r = "undef" THEN TRUE ELSE RMul(r, r) = x /\ RSign(r) >= 0
          /\ RRoot("2") = "undef" /\ RRoot("-4") = "undef" /\ RRoot("1/2") = "undef"
Reading ==
    /\ RNorm("0.25") = "1/4" /\ RNorm("-1.5e-2") = "-3/200" /\ RNorm("1e3") = "1000"
    /\ RNorm("6/4") = "3/2" /\ ~RIsNum("nan") /\ ~RIsNum("inf") /\ RIsNum("-1e-300")
=============================================================================
