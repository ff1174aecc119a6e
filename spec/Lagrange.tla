------------------------------ MODULE Lagrange ------------------------------
(* Tensor-product Lagrange interpolation.  Control coordinates are         *)
(* sequences of distinct rationals; F[i][j] (F[i][j][k]) is the field.     *)
EXTENDS Rat, SequencesExt

Distinct(q) == \A i, j \in DOMAIN q : i # j => ~REq(q[i], q[j])
(* value at x of the basis polynomial that is 1 at xs[i], 0 at the others  *)
Basis(xs, i, x) == RProd([j \in 1..Len(xs) |-> IF j = i THEN "1" ELSE RDiv(RSub(x, xs[j]), RSub(xs[i], xs[j]))])
BasisRow(xs, x) == [i \in 1..Len(xs) |-> Basis(xs, i, x)]

Interp1(xs, F, x) == RDot(BasisRow(xs, x), F)
Interp2(xs, ys, F, x, y) ==
    LET b == BasisRow(ys, y) IN RDot(BasisRow(xs, x), [i \in 1..Len(xs) |-> RDot(b, F[i])])
Interp3(xs, ys, zs, F, x, y, z) ==
    RDot(BasisRow(xs, x), [i \in 1..Len(xs) |-> Interp2(ys, zs, F[i], y, z)])

(* The shipped three-dimensional version takes its third basis from the    *)
(* second coordinates (known_findings.txt): over k # p with ys[k] # zs[p]  *)
BasisAsIs(ys, zs, p, z) ==
    RProd([k \in 1..Len(ys) |-> IF k = p \/ REq(zs[p], ys[k]) THEN "1" ELSE RDiv(RSub(z, ys[k]), RSub(zs[p], ys[k]))])
Interp3AsIs(xs, ys, zs, F, x, y, z) ==
    LET bz == [p \in 1..Len(zs) |-> BasisAsIs(ys, zs, p, z)]
        by == BasisRow(ys, y)
    IN  RDot(BasisRow(xs, x), [i \in 1..Len(xs) |-> RDot(by, [j \in 1..Len(ys) |-> RDot(bz, F[i][j])])])

(* Size of the terms, for rounding                                         *)
AbsRow(b) == [i \in DOMAIN b |-> RAbs(b[i])]
Size2(xs, ys, F, x, y) ==
    LET b == AbsRow(BasisRow(ys, y)) IN RDot(AbsRow(BasisRow(xs, x)), [i \in 1..Len(xs) |-> RDot(b, AbsRow(F[i]))])
Size3(bx, by, bz, F) ==
    RDot(AbsRow(bx), [i \in DOMAIN bx |-> RDot(AbsRow(by), [j \in DOMAIN by |-> RDot(AbsRow(bz), AbsRow(F[i][j]))])])

RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN "1" ELSE RMul(x, Pow(x, k - 1))
=============================================================================
