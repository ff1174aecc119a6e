------------------------------- MODULE Small --------------------------------
(* All expressions with at most two nested operators, numbered.            *)
EXTENDS Expr
Atoms == << <<"v", "x", 11>>, <<"n", "2", "2">>, <<"c", "f", 23, << <<"v", "y", 5>> >> >>, <<"i", <<"v", "a", 31>>, << <<"n", "1", "1">> >> >> >>
N0 == Len(Atoms)
Lits == << <<"n", "2", "2">>, <<"n", "3", "3">> >>
Bin == <<"+", "-", "*", "/", "%", "//", "<", "==", "and", "or">>
NB == Len(Bin)
X0 == Atoms[1]
(* over n operands sub(0..n-1): two-place operators, general powers,       *)
(* conditionals with a name at one place, signs, negations, literal        *)
(* squares and cubes                                                       *)
Count(n) == n + (NB + 4) * n * n + 2 * n + 2 * n
Level(k, n, sub(_)) ==
    IF k < n THEN sub(k)
    ELSE LET j == k - n  kind == j \div (n * n)  a == sub((j \div n) % n)  b == sub(j % n) IN
    IF kind < NB THEN <<"b", Bin[kind + 1], a, b>>
    ELSE IF kind = NB THEN <<"p", a, b, b[1] = "n">>
    ELSE IF kind = NB + 1 THEN <<"q", X0, a, b>>
    ELSE IF kind = NB + 2 THEN <<"q", a, X0, b>>
    ELSE IF kind = NB + 3 THEN <<"q", a, b, X0>>
    ELSE LET i == j - (NB + 4) * n * n IN
    IF i < n THEN <<"u", "-", sub(i)>>
    ELSE IF i < 2 * n THEN <<"u", "not", sub(i - n)>>
    ELSE <<"p", sub((i - 2 * n) % n), Lits[((i - 2 * n) \div n) + 1], TRUE>>
Small0(k) == Atoms[k + 1]
N1 == Count(N0)
Small1(k) == Level(k, N0, Small0)
N2 == Count(N1)
Small2(k) == Level(k, N1, Small1)
=============================================================================
