-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Arithmetic expressions: their value and their spelling.                 *)
(*                                                                         *)
(*   <<"n", "3/2", txt>>     number              <<"v", name, hash>>  name *)
(*   <<"u", "-", a>>         sign                <<"b", "+", a, b>>        *)
(*   <<"p", a, b, lit>>      power; lit: the exponent is a positive        *)
(*                           integer literal, written as in a**3, pow(a,3) *)
(*   <<"c", f, hash, args>>  function call                                 *)
(*   <<"i", a, idx>>         indexed name, idx a sequence                  *)
(*   <<"a", a, attr, hash>>  attribute            <<"bad", why>>           *)
(*   <<"q", cond, a, b>>     a if cond else b; the operators of "b" include *)
(*                           %, //, comparisons, and, or; those of "u" not *)
(*                                                                         *)
(* Values are exact rationals, "undef" (as in 1/0), or "big": not worked   *)
(* out because it has too many digits, no verdict depends on it.  Functions without an own        *)
(* meaning are interpreted by a rational function that differs with the    *)
(* name's hash: two expressions that agree under several assignments of    *)
(* names agree for every interpretation unless an accident happens.  The   *)
(* operators without arithmetic meaning here are such functions, too.      *)
(***************************************************************************)
EXTENDS Rat, Rng, TLC

(* An assignment: names in its domain have their value, every other name   *)
(* gets one from its hash.  Kind 1 assigns squares of positive rationals   *)
(* (roots are exact), the others any non-zero rational.                    *)
Sq(h) == RSq(RDiv(RInt((h % 7) + 2), RInt(((h \div 7) % 5) + 1)))
Free(kind, h) ==
    CASE kind = 1 -> Sq(h)
      [] kind = 2 -> Sq(h \div 5 + 1)
      [] OTHER -> LET k == ((h * (2 * kind + 1)) % 41) - 20 IN RDiv(RInt(IF k = 0 THEN 23 ELSE k), RInt((h % 3) + kind))
NoNames == [x \in {} |-> "0"]

None(x) == x \in {"undef", "big"}
Spoiled(vals) == \E i \in DOMAIN vals : None(vals[i])
Spoil(vals) == IF \E i \in DOMAIN vals : vals[i] = "big" THEN "big" ELSE "undef"
(* what is observed agrees with what is expected                           *)
Agrees(expected, observed) == None(expected) \/ observed = "big" \/ expected = observed

Uninterp(h, vals) ==
    IF Spoiled(vals) THEN Spoil(vals)
    ELSE LET s == RSum(<<RDiv(RInt(h % 1000), "7")>> \o [i \in DOMAIN vals |-> RMul(RInt(i), vals[i])])
         IN  RDiv(RAdd(RMul("2", s), "1"), RAdd(RSq(s), "3"))
Even(x) == RDiv("2", RAdd("2", RSq(x)))                   \* one at zero
Odd(x)  == RDiv(RMul("3", x), RAdd("1", RSq(x)))          \* zero at zero

Integral(r) == RIsInt(r)
PowVal(x, e) ==
    IF None(x) \/ None(e) THEN Spoil(<<x, e>>)
    ELSE IF RLe(RAbs(e), "200") /\ Integral(e) THEN RPow(x, RToInt(e))
    ELSE IF RLe(RAbs(e), "50") /\ Integral(RMul("2", e)) /\ RRoot(x) # "undef" THEN RPow(RRoot(x), RToInt(RMul("2", e)))
    ELSE Uninterp(501, <<x, e>>)
CallVal(f, h, vals) ==
    IF Spoiled(vals) THEN Spoil(vals)
    ELSE IF f = "sin" /\ Len(vals) = 1 THEN Odd(vals[1])
    ELSE IF f = "cos" /\ Len(vals) = 1 THEN Even(vals[1])
    ELSE IF f = "sqrt" /\ Len(vals) = 1 /\ RRoot(vals[1]) # "undef" THEN RRoot(vals[1])
    ELSE Uninterp(h + 13, vals)

OpHash(op) == CASE op = "%" -> 101 [] op = "//" -> 113 [] op = "<" -> 127 [] op = ">" -> 131 [] op = "<=" -> 137
                [] op = ">=" -> 139 [] op = "==" -> 149 [] op = "!=" -> 151 [] op = "and" -> 157 [] op = "or" -> 163
Sums == {"+", "-"}
Prods == {"*", "/", "%", "//"}
Compares == {"<", ">", "<=", ">=", "==", "!="}

RECURSIVE Val(_, _, _)
Val(e, env, kind) ==
    CASE e[1] = "n" -> RNorm(e[2])
      [] e[1] = "v" -> IF e[2] \in DOMAIN env THEN env[e[2]] ELSE Free(kind, e[3])
      [] e[1] = "u" -> LET x == Val(e[3], env, kind) IN
            IF None(x) THEN x ELSE IF e[2] = "-" THEN RNeg(x) ELSE IF e[2] = "not" THEN Uninterp(311, <<x>>) ELSE x
      [] e[1] = "b" ->
            LET x == Val(e[3], env, kind)  y == Val(e[4], env, kind) IN
            IF None(x) \/ None(y) THEN Spoil(<<x, y>>)
            ELSE (CASE e[2] = "+" -> RAdd(x, y)
                   [] e[2] = "-" -> RSub(x, y)
                   [] e[2] = "*" -> RMul(x, y)
                   [] e[2] = "/" -> IF y = "0" THEN "undef" ELSE RDiv(x, y)
                   [] OTHER -> Uninterp(OpHash(e[2]), <<x, y>>))
      [] e[1] = "q" -> Uninterp(811, [i \in 1..3 |-> Val(e[i + 1], env, kind)])
      [] e[1] = "p" -> PowVal(Val(e[2], env, kind), Val(e[3], env, kind))
      [] e[1] = "c" -> CallVal(e[2], e[3], [i \in DOMAIN e[4] |-> Val(e[4][i], env, kind)])
      [] e[1] = "i" -> Uninterp(701, <<Val(e[2], env, kind)>> \o [i \in DOMAIN e[3] |-> Val(e[3][i], env, kind)])
      [] e[1] = "a" -> Uninterp(e[4] + 29, <<Val(e[2], env, kind)>>)
      [] OTHER -> "undef"

Kids(e) == CASE e[1] = "u" -> <<e[3]>> [] e[1] = "b" -> <<e[3], e[4]>> [] e[1] = "p" -> <<e[2], e[3]>>
             [] e[1] = "c" -> e[4] [] e[1] = "i" -> <<e[2]>> \o e[3] [] e[1] = "a" -> <<e[2]>>
             [] e[1] = "q" -> <<e[2], e[3], e[4]>> [] OTHER -> <<>>
RECURSIVE HasPower(_)
HasPower(e) == e[1] = "p" \/ \E i \in DOMAIN Kids(e) : HasPower(Kids(e)[i])
RECURSIVE HasLiteralPower(_)
HasLiteralPower(e) == (e[1] = "p" /\ e[4]) \/ \E i \in DOMAIN Kids(e) : HasLiteralPower(Kids(e)[i])
RECURSIVE NamesIn(_)
NamesIn(e) == IF e[1] = "v" THEN {e[2]} ELSE UNION {NamesIn(Kids(e)[i]) : i \in DOMAIN Kids(e)}
RECURSIVE IsBad(_)
IsBad(e) == e[1] = "bad" \/ \E i \in DOMAIN Kids(e) : IsBad(Kids(e)[i])

-----------------------------------------------------------------------------
(* The expansion as a rewriting: literal powers become products            *)
RECURSIVE Product(_, _)
Product(e, n) == IF n = 1 THEN e ELSE <<"b", "*", Product(e, n - 1), e>>
RECURSIVE Expanded(_)
Expanded(e) ==
    CASE e[1] = "p" /\ e[4] -> Product(Expanded(e[2]), RToInt(e[3][2]))
      [] e[1] = "p" -> <<"p", Expanded(e[2]), Expanded(e[3]), FALSE>>
      [] e[1] = "u" -> <<"u", e[2], Expanded(e[3])>>
      [] e[1] = "b" -> <<"b", e[2], Expanded(e[3]), Expanded(e[4])>>
      [] e[1] = "c" -> <<"c", e[2], e[3], [i \in DOMAIN e[4] |-> Expanded(e[4][i])]>>
      [] e[1] = "i" -> <<"i", Expanded(e[2]), [i \in DOMAIN e[3] |-> Expanded(e[3][i])]>>
      [] e[1] = "a" -> <<"a", Expanded(e[2]), e[3], e[4]>>
      [] e[1] = "q" -> <<"q", Expanded(e[2]), Expanded(e[3]), Expanded(e[4])>>
      [] OTHER -> e

-----------------------------------------------------------------------------
(* Spelling.  Prec: 1 sums, 2 products, 3 signs, 4 powers, 5 atoms; below, *)
(* comparisons, not, and, or, conditionals                                 *)
Loosest == -4
Prec(e) == CASE e[1] = "b" -> (CASE e[2] \in Sums -> 1 [] e[2] \in Prods -> 2 [] e[2] \in Compares -> 0
                                 [] e[2] = "and" -> -2 [] e[2] = "or" -> -3)
             [] e[1] = "u" -> IF e[2] = "not" THEN -1 ELSE 3
             [] e[1] = "p" -> 4 [] e[1] = "q" -> Loosest [] OTHER -> 5

Join(q, sep) == IF q = <<>> THEN "" ELSE FoldLeft(LAMBDA acc, x : acc \o sep \o x, q[1], Tail(q))

(* A seed chooses among equal spellings (0: the plain one): redundant      *)
(* brackets, pow(a, b), space around operators.                            *)
Kid(sd, k) == IF sd = 0 THEN 0 ELSE NextSeed((sd + 37 * k) % SeedMod) + 1
RECURSIVE Spell(_, _, _)
Spell(e, ctx, sd) ==
    LET yes(j, n) == sd # 0 /\ Rnd(sd, j, n) = 0
        sp == IF yes(1, 3) THEN " " ELSE ""
        spp == IF yes(2, 6) THEN " " ELSE ""
        fun == yes(3, 3)
        two(op, l, r) == Spell(e[3], l, Kid(sd, 1)) \o sp \o op \o sp \o Spell(e[4], r, Kid(sd, 2))
        word(w, x) == IF yes(5, 3) THEN w \o "(" \o x \o ")" ELSE w \o " " \o x      \* a word and what follows
        list(q) == Join([i \in DOMAIN q |-> Spell(q[i], Loosest, Kid(sd, 2 + i))], "," \o sp)
        body ==
            CASE e[1] = "n" -> e[3]
              [] e[1] = "v" -> e[2]
              [] e[1] = "u" -> IF e[2] = "not" THEN word("not", Spell(e[3], -1, Kid(sd, 1)))
                               ELSE e[2] \o Spell(e[3], 3, Kid(sd, 1))
              [] e[1] = "b" -> (CASE e[2] \in Sums -> two(e[2], 1, 2) [] e[2] \in Prods -> two(e[2], 2, 3)
                                  [] e[2] \in Compares -> two(e[2], 1, 1)
                                  [] e[2] = "and" -> Spell(e[3], -2, Kid(sd, 1)) \o word(" and", Spell(e[4], -1, Kid(sd, 2)))
                                  [] OTHER -> Spell(e[3], -3, Kid(sd, 1)) \o word(" or", Spell(e[4], -2, Kid(sd, 2))))
              [] e[1] = "q" -> Spell(e[3], -3, Kid(sd, 1)) \o word(" if", Spell(e[2], -3, Kid(sd, 2))) \o
                               word(" else", Spell(e[4], Loosest, Kid(sd, 3)))
              [] e[1] = "p" ->
                    LET ex == IF e[4] THEN e[3][3]
                              ELSE IF e[3][1] = "n" /\ RLe("1", e[3][2]) /\ e[3][2] = e[3][3] THEN "(" \o e[3][3] \o ")"
                              ELSE Spell(e[3], IF fun THEN Loosest ELSE 3, Kid(sd, 2))
                    IN  IF fun THEN "pow" \o spp \o "(" \o Spell(e[2], Loosest, Kid(sd, 1)) \o "," \o sp \o ex \o ")"
                        ELSE Spell(e[2], 5, Kid(sd, 1)) \o spp \o "**" \o spp \o ex
              [] e[1] = "c" -> e[2] \o "(" \o list(e[4]) \o ")"
              [] e[1] = "i" -> Spell(e[2], 5, Kid(sd, 1)) \o "[" \o list(e[3]) \o "]"
              [] e[1] = "a" -> Spell(e[2], 5, Kid(sd, 1)) \o "." \o e[3]
        prec == IF e[1] = "p" /\ fun THEN 5 ELSE Prec(e)
    IN  IF prec < ctx \/ (e[1] \in {"b", "u", "p", "c", "q"} /\ yes(4, 12)) THEN "(" \o body \o ")" ELSE body
=============================================================================
