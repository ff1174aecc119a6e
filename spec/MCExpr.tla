------------------------------- MODULE MCExpr -------------------------------
(* Every expression of at most two nested operators: literal powers can be *)
(* expanded without changing any value, none is left, and nothing else is  *)
(* rewritten; spelling and brackets agree (see also TraceText).            *)
EXTENDS Small
CONSTANT Part       \* check every Part-th expression
VARIABLE k
Init == k \in {i \in 0..(N2 - 1) : i % Part = 0}
Next == UNCHANGED k
e == Small2(k)
Kinds == 1..3
Same(a, b) == \A q \in Kinds : Agrees(Val(a, NoNames, q), Val(b, NoNames, q))
ValueKept   == Same(e, Expanded(e))
NoneLeft    == ~HasLiteralPower(Expanded(e))
OthersKept  == ~HasLiteralPower(e) => Expanded(e) = e
Idempotent  == Expanded(Expanded(e)) = Expanded(e)
=============================================================================
