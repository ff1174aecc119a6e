------------------------------ MODULE GenText -------------------------------
(***************************************************************************)
(* Generates texts for the power expansion (C24) and matrices with printing *)
(* options and histories (C25 to C28).                                     *)
(***************************************************************************)
EXTENDS Small, Files, IOUtils, Json

PROP   == IOEnv.PROP
SEED0  == atoi(IOEnv.SEED)
FIRST  == atoi(IOEnv.FIRST)
CHAINS == atoi(IOEnv.CHAINS)
OUT    == IOEnv.OUT

VARIABLES c, seed, ops
Num(s) == <<"n", s, s>>
Name(s) == <<"v", s, 0>>
Fn(f, args) == <<"c", f, 0, args>>

-----------------------------------------------------------------------------
(* C24: any expression                                                     *)
Names == <<"x", "y", "xx", "x1", "_a", "pow_x", "powx", "xpow", "Pow", "e", "e1", "E2", "x_pow", "pow2", "a", "k0", "m12">>
Numbers == <<"2", "3", "10", "0", "1.5", ".5", "2.", "1e3", "2.5e-1", "12", "1e2", "1">>
Fns == <<"f", "sin", "mypow", "pow2", "np.pow", "math.sin", "powf", "g_", "a.pow", "sqrt", "x2pow">>
LitExps == <<"2", "3", "2", "4", "1", "6", "12", "5", "10", "16", "20", "2", "3", "100">>
RECURSIVE Expression(_, _)
Expression(sd, d) ==
    LET k == Rnd(sd, 1, 24)
        sub(i) == Expression(Kid(sd + 1, i), d - 1)
        atom == IF Rnd(sd, 2, 4) = 0 THEN LET t == PickSeq(sd, 3, Numbers) IN <<"n", RNorm(IF t = "2." THEN "2" ELSE IF t = ".5" THEN "0.5" ELSE t), t>>
                ELSE Name(PickSeq(sd, 4, Names))
        base == IF Rnd(sd, 5, 3) = 0 THEN atom ELSE sub(1)
    IN
    IF d = 0 THEN atom
    ELSE IF k < 2 THEN atom
    ELSE IF k < 8 THEN <<"b", PickSeq(sd, 6, <<"+", "-", "*", "/", "*", "/">>), sub(1), sub(2)>>
    ELSE IF k = 8 THEN <<"u", PickSeq(sd, 7, <<"-", "-", "+">>), sub(1)>>
    ELSE IF k < 13 THEN <<"p", base, Num(PickSeq(sd, 8, LitExps)), TRUE>>
    ELSE IF k < 16 THEN
         LET j == Rnd(sd, 9, 9)
             ex == CASE j = 0 -> <<"u", "-", Num(PickSeq(sd, 10, LitExps))>>
                     [] j = 1 -> <<"n", "0", "0">>
                     [] j = 2 -> <<"n", "1/2", "0.5">>
                     [] j = 3 -> Name(PickSeq(sd, 11, <<"n", "x", "k0">>))
                     [] j = 4 -> <<"b", "/", Num("1"), Num("2")>>
                     [] j = 5 -> <<"n", "2", "2.0">>
                     [] j = 6 -> Num(PickSeq(sd, 12, <<"2", "3">>))      \* bracketed: x**(2)
                     [] j = 7 -> <<"p", Num("2"), Num(PickSeq(sd, 13, <<"2", "3">>)), TRUE>>
                     [] OTHER -> <<"b", "+", Name("n"), Num("1")>>
         IN  <<"p", base, ex, FALSE>>
    ELSE IF k < 18 THEN Fn(PickSeq(sd, 14, Fns), [i \in 1..(1 + Rnd(sd, 15, 2)) |-> sub(i)])
    ELSE IF k = 18 THEN <<"i", Name(PickSeq(sd, 16, <<"a", "xyz", "pow", "x1">>)), [i \in 1..(1 + Rnd(sd, 17, 2)) |-> IF Coin(sd, 18) THEN sub(i) ELSE Num("1")]>>
    ELSE IF k < 20 THEN <<"a", Name(PickSeq(sd, 19, <<"prop", "n1">>)), PickSeq(sd, 20, <<"nx", "e", "pow">>), 0>>
    ELSE IF k = 20 THEN <<"b", PickSeq(sd, 21, <<"%", "//">>), sub(1), sub(2)>>
    ELSE IF k = 21 THEN <<"b", PickSeq(sd, 21, <<"<", ">", "<=", ">=", "==", "!=">>), sub(1), sub(2)>>
    ELSE IF k = 22 THEN IF Rnd(sd, 21, 3) = 0 THEN <<"u", "not", sub(1)>> ELSE <<"b", PickSeq(sd, 22, <<"and", "or">>), sub(1), sub(2)>>
    ELSE <<"q", sub(1), sub(2), sub(3)>>
Pow2(e, sd) == [op |-> "pow2mul", e |-> e, text |-> Spell(e, Loosest, sd)]
Ops24(sd) ==
    [i \in 1..12 |-> Pow2(Expression(Kid(sd + 1, i), 1 + Rnd(sd, i, 4)), Kid(sd + 2, i))] \o
    [i \in 1..20 |-> Pow2(Small2((((c * 20 + i) * 7919) + SEED0 * 13) % N2), IF i % 2 = 0 THEN 0 ELSE Kid(sd + 3, i))]

-----------------------------------------------------------------------------
(* C25 to C28: matrices.  Only forms whose algebra is that of the rationals *)
MNames == <<"x", "y", "z", "a11", "A", "xx", "pow_x", "xpow", "x0", "x1", "s", "Ac", "nx">>
RECURSIVE Safe(_, _)
Safe(sd, d) ==
    LET k == Rnd(sd, 1, 18)
        sub(i) == Safe(Kid(sd + 1, i), d - 1)
        nm(j) == Name(PickSeq(sd, j, MNames))
        small == Num(PickSeq(sd, 3, <<"2", "3", "4", "7">>))
    IN
    IF d = 0 THEN IF Rnd(sd, 4, 4) = 0 THEN small ELSE nm(5)
    ELSE CASE k < 2 -> nm(5)
           [] k < 5 -> <<"p", nm(5), Num(PickSeq(sd, 6, <<"2", "3", "4", "5">>)), TRUE>>
           [] k = 5 -> <<"p", nm(5), <<"u", "-", Num(PickSeq(sd, 7, <<"1", "2">>))>>, FALSE>>
           [] k < 9 -> <<"b", "*", sub(1), sub(2)>>
           [] k < 12 -> <<"b", PickSeq(sd, 8, <<"+", "-">>), sub(1), sub(2)>>
           [] k = 12 -> <<"b", "/", sub(1), IF Coin(sd, 9) THEN small ELSE nm(10)>>
           [] k = 13 -> <<"b", "/", sub(1), <<"b", "+", nm(10), nm(11)>>>>
           [] k = 14 -> <<"u", "-", sub(1)>>
           [] k = 15 -> Fn(PickSeq(sd, 12, <<"sin", "cos", "f", "g2">>), <<IF Coin(sd, 13) THEN nm(5) ELSE sub(1)>>)
           [] k = 16 -> <<"p", Fn("sqrt", <<nm(5)>>), Num("3"), TRUE>>
           [] OTHER -> <<"p", <<"b", "+", nm(5), sub(1)>>, Num(PickSeq(sd, 14, <<"2", "3">>)), TRUE>>
Zeroes == Num("0")
(* two rows over about n common subexpressions                             *)
Wide(sd, n) ==
    LET M == Len(MNames)
        t(k) == <<"b", "+", Name(MNames[1 + (k % M)]), Name(MNames[1 + ((k + 1 + (k \div M)) % M)])>>
        u(k) == IF Rnd(sd, 50, 3) = 0 THEN Fn("sin", <<t(k)>>) ELSE t(k)
    IN  << [k \in 1..n |-> IF Rnd(sd, k, 12) = 0 THEN Zeroes ELSE <<"p", u(k), Num(PickSeq(sd, 100 + k, <<"2", "3">>)), TRUE>>],
           [k \in 1..n |-> <<"b", "*", u(k), Name(PickSeq(sd, 200 + k, MNames))>>] >>
Matrix(sd, nr, nc, sym, big) ==
    LET d == IF big THEN 1 + Rnd(sd, 1, 3) ELSE 1
        shared == [i \in 1..3 |-> Safe(Kid(sd + 1, i), 1)]
        ent(i, j) == LET q == Kid(sd + 2, 20 * i + j) IN
            IF Rnd(q, 1, 3) = 0 THEN Zeroes
            ELSE IF Rnd(q, 2, 12) = 0 THEN <<"b", "-", shared[1], shared[1]>>        \* vanishes
            ELSE IF Rnd(q, 3, 3) = 0 THEN <<"b", PickSeq(q, 4, <<"+", "*", "-">>), PickSeq(q, 5, shared), PickSeq(q, 6, shared)>>
            ELSE Safe(q, d)
    IN  [i \in 1..nr |-> [j \in 1..nc |-> IF sym /\ i > j THEN ent(j, i) ELSE ent(i, j)]]
Text(m) == [i \in DOMAIN m |-> [j \in DOMAIN m[1] |-> Spell(m[i][j], 1, 0)]]
Keys == <<Name("x"), Name("y"), Name("pow_x"), Name("A"), <<"p", Name("x"), Num("2"), TRUE>>, <<"b", "*", Name("x"), Name("y")>>,
          Fn("sin", <<Name("x")>>), Fn("sqrt", <<Name("x")>>), Name("nothere")>>
News == <<"r", "r1", "rx", "xs", "co_x", "pw", "K", "b_", "t12">>
Subs(sd) ==
    LET n == 1 + Rnd(sd, 1, 3)  ks == Shuffle(sd, 2, Keys)  ns == Shuffle(sd, 40, News) IN
    [i \in 1..n |-> <<Spell(ks[i], 1, 0), ns[i]>>]
Collects == << <<"x">>, <<"x", "y">>, <<"sin(x)">>, <<"z", "x">>, <<"nothere">>, <<"A", "y", "x">> >>
Heads == <<"", "", "cdef int c, row, col", "header", "umlaut", "first line\nsecond line", "if (x) { c += 1; } %d \\ {0}">>
MatNames == <<"k0", "m", "kG_cell", "BL", "A1", "k0s">>

PrintOp(sd, kind) ==
    LET sym == kind = "sparse" /\ Coin(sd, 1)
        sizes == IF PROP = "C28" THEN <<1, 2, 3>> ELSE <<1, 2, 3, 4, 2, 3, 4, 5, 6, 12>>
        nr == PickSeq(sd, 2, sizes)
        nc == IF sym THEN nr ELSE IF nr > 4 THEN PickSeq(sd, 3, <<1, 2, 3>>) ELSE PickSeq(sd, 3, sizes)
        wide == ~sym /\ PROP # "C28" /\ Rnd(sd, 19, 4) = 0
        m == IF wide THEN Wide(Kid(sd + 1, 9), 6 + Rnd(sd, 20, 15))
             ELSE Matrix(Kid(sd + 1, 9), nr, nc, sym /\ Rnd(sd, 4, 4) # 0, PROP # "C28")
        cse == kind = "array" /\ Coin(sd, 5)
        subs == kind # "array" /\ Coin(sd, 6)
        coll == Rnd(sd, 7, 3) = 0
    IN  [op |-> "print", kind |-> kind, m |-> Text(m), name |-> PickSeq(sd, 8, MatNames),
         sufix |-> IF kind = "dense" THEN "" ELSE PickSeq(sd, 9, <<"", "", "a", "1", "cell_based", "0", "v1.2">>),
         subs |-> IF subs THEN Subs(Kid(sd + 1, 8)) ELSE <<>>, head |-> PickSeq(sd, 10, Heads),
         hascollect |-> coll, collect |-> IF coll THEN PickSeq(sd, 11, Collects) ELSE <<>>,
         pbm |-> IF coll THEN Coin(sd, 12) ELSE Rnd(sd, 12, 3) # 0, sym |-> sym,
         dpn |-> IF kind = "array" THEN 0 ELSE PickSeq(sd, 13, <<0, 0, 1, 2, 3, 5>>),
         order |-> PickSeq(sd, 14, <<"C", "F">>), aop |-> PickSeq(sd, 15, <<"+=", "+=", "=", "-=", "*=">>),
         cse |-> cse, file |-> IF PROP = "C28" THEN Rnd(sd, 16, 4) # 0 ELSE Coin(sd, 17),
         dflt |-> Rnd(sd, 18, 6) = 0]
Plain(p) ==      \* called with the defaults only
    IF ~p.dflt THEN p
    ELSE [p EXCEPT !.sufix = "", !.subs = <<>>, !.head = "", !.hascollect = FALSE, !.collect = <<>>, !.pbm = TRUE, !.sym = FALSE,
                   !.dpn = 0, !.order = "C", !.aop = "+=", !.cse = FALSE, !.file = TRUE]
Ops2x(sd, kind) == [i \in 1..3 |-> Plain(PrintOp(Kid(sd + 1, i), kind))]
Ops28(sd) ==
    [i \in 1..8 |->
        LET q == Kid(sd + 1, IF i > 2 /\ Rnd(Kid(sd + 1, i), 11, 5) = 0 THEN i - 2 ELSE i)      \* the same once more
            k == Rnd(q, 1, 6)
            tiny == Rnd(q, 12, 3) = 0       \* texts of equal length over each other
            p == IF tiny THEN Plain([PrintOp(q, PickSeq(sd, 3, <<"sparse", "dense", "array">>)) EXCEPT
                              !.name = PickSeq(sd, 4, <<"k0", "kG", "m">>), !.dflt = TRUE,
                              !.m = << <<PickSeq(q, 13, <<"x", "y", "z", "A", "s", "2", "7">>)>> >>])
                 ELSE Plain([PrintOp(q, PickSeq(q, 2, <<"sparse", "dense", "array">>)) EXCEPT
                         !.name = PickSeq(q, 3, <<"k0", "kG", "m">>), !.sufix = IF @ = "" THEN "" ELSE PickSeq(q, 4, <<"a", "k0", "0", "2", "v1.2">>)]) IN
        CASE k = 0 -> [op |-> "cd", to |-> PickSeq(q, 5, <<"d1", "d2">>)]
          [] k = 1 -> [op |-> "touch", name |-> PickSeq(q, 6, <<"print_k0.txt", "notes.txt", "print_m_a.txt", "k0.txt">>), text |-> "old contents, much longer than anything that will be printed\nand\nmore\n"]
          [] OTHER -> p]

PropSalt == CHOOSE i \in 0..99 : PROP = "C" \o (IF i < 10 THEN "0" ELSE "") \o ToString(i)
ChainSeed(k) == LET a == (SEED0 % 1000) * 131 + k * 977 + PropSalt * 31 IN NextSeed(NextSeed(a % SeedMod))
Init == c \in FIRST..(FIRST + CHAINS - 1) /\ seed = ChainSeed(c) /\ ops = <<>>
Next ==
    /\ ops = <<>>
    /\ ops' = TLCEval(CASE PROP = "C24" -> Ops24(seed) [] PROP = "C25" -> Ops2x(seed, "dense")
                        [] PROP = "C26" -> Ops2x(seed, "sparse") [] PROP = "C27" -> Ops2x(seed, "array")
                        [] PROP = "C28" -> Ops28(seed))
    /\ JsonSerialize(OUT \o "/" \o ToString(c) \o ".json", [id |-> c, prop |-> PROP, ops |-> ops'])
    /\ UNCHANGED <<c, seed>>
=============================================================================
