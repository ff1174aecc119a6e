-------------------------------- MODULE Rng --------------------------------
(* Deterministic draws: Rnd(s, j, n) is the j-th draw from 0..n-1 of seed s. *)
EXTENDS Integers, Sequences, SequencesExt, TLC
SeedMod == 134456
NextSeed(s) == (s * 8121 + 28411) % SeedMod
LOCAL Mix(s, j) ==
    LET a == (s * 7919 + (j % 10000) * 104729) % 714025
        b == (a * 1366 + 150889) % 714025
        c == ((b % SeedMod) * 8121 + 28411) % SeedMod
        d == ((b + c) * 1366 + 150889) % 714025
    IN  (d * 1366 + c) % 714025
Rnd(s, j, n) == (Mix(s, j) \div 3) % n
Coin(s, j)   == Rnd(s, j, 2) = 1
PickSeq(s, j, q) == q[Rnd(s, j, Len(q)) + 1]
(* a permutation of a sequence *)
Shuffle(s, j, q) ==
    LET k == TLCEval(SortSeq(TLCEval([i \in DOMAIN q |-> <<Mix(s, j + i), i>>]),
                     LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])))
    IN  TLCEval([i \in DOMAIN q |-> q[k[i][2]]])
=============================================================================
