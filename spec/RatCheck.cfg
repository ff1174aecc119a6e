SPECIFICATION Spec
INVARIANTS Arith Axioms Powers Reading
