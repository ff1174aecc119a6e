-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Generates behaviours of Session for replay on the code.  Every chain    *)
(* grows a mesh on the lattice (Planar), labels it, and then follows the   *)
(* script of its property, every operation being a Valid one of Session.   *)
(* All choices are draws from VERIF_SEED, so chains are reproducible.      *)
(* Environment: PROP, SEED, FIRST, CHAINS (chain numbers), MAXT (mesh      *)
(* size), OUT (directory for one JSON file per chain).                     *)
(***************************************************************************)
EXTENDS Session, Planar, Rng, IOUtils, Json

PROP   == IOEnv.PROP
SEED0  == atoi(IOEnv.SEED)
FIRST  == atoi(IOEnv.FIRST)
CHAINS == atoi(IOEnv.CHAINS)
MAXT   == atoi(IOEnv.MAXT)
OUT    == IOEnv.OUT
BIGN   == atoi(IOEnv.BIGN)      \* nodes of large meshes
EVERY  == atoi(IOEnv.EVERY)     \* every so many chains has one
Big(k) == k % EVERY = 1

VARIABLES c, seed, ph, tris, want, lab, s, script, ops
vars == <<c, seed, ph, tris, want, lab, s, script, ops>>

LatN == 4
Lat  == (0..LatN) \X (0..LatN)

-----------------------------------------------------------------------------
(* Meshes                                                                  *)

FirstTris == SelectSeq(SetToSeq({<<<<1, 1>>, a, b>> : a \in (0..3) \X (0..3), b \in (0..3) \X (0..3)}),
                       LAMBDA t : Proper(t) /\ ~Slim(t))

(* one growth step guided by the seed: a rim side and a point, or a split  *)
GrowStep(ts, sd) ==
    LET rim == SetToSeq(Rim(ts))
        e == PickSeq(sd, 1, rim)
        a == CHOOSE x \in e : TRUE
        b == CHOOSE x \in e : x # a
        cand == {p \in Lat : LET u == <<a, b, p>> IN ~Slim(u) /\ Fits(ts, u)}
        old == cand \cap PointsOf(ts)
        pool == IF old # {} /\ Rnd(sd, 2, 4) # 0 THEN old ELSE cand
        sp == {q \in (DOMAIN ts) \X Lat : StrictlyIn(q[2], ts[q[1]])}
        spl == {q \in sp : LET r == SplitAt(ts, q[1], q[2]) IN \A i \in DOMAIN r : ~Slim(r[i])}
    IN  IF spl # {} /\ Rnd(sd, 3, 3) # 0
        THEN LET q == PickSeq(sd, 4, SetToSeq(spl)) IN SplitAt(ts, q[1], q[2])
        ELSE IF pool = {} THEN ts
        ELSE Append(ts, <<a, b, PickSeq(sd, 5, SetToSeq(pool))>>)

(* Many triangles at once: a field of cells with some left out, a narrow   *)
(* band, or a fan of triangles around one node                             *)
Cell(sd, i, j) ==
    LET a == <<i, j>>  b == <<i + 1, j>>  d == <<i + 1, j + 1>>  e == <<i, j + 1>> IN
    IF Coin(sd, 1000 + 40 * i + j) THEN << <<a, b, d>>, <<a, d, e>> >> ELSE << <<a, b, e>>, <<b, d, e>> >>
Field2(sd, nx, ny, hole) ==
    FlattenSeq([k \in 1..(nx * ny) |-> LET i == (k - 1) % nx  j == (k - 1) \div nx IN
        IF hole > 0 /\ k > 1 /\ Rnd(sd, 4000 + k, hole) = 0 THEN <<>> ELSE Cell(sd, i, j)])
Ring(r, k) ==       \* the points at distance r (largest coordinate) of the origin, counter-clockwise
    CASE k < 2 * r -> <<r, k - r>> [] k < 4 * r -> <<3 * r - k, r>> [] k < 6 * r -> <<-r, 5 * r - k>> [] OTHER -> <<k - 7 * r, -r>>
Fan(sd, r) == LET n == 8 * r  m == n - Rnd(sd, 4900, 3)  o == <<0, 0>> IN
    [k \in 1..m |-> <<o, Ring(r, (k - 1) % n), Ring(r, k % n)>>]
BigMesh(sd, n) ==       \* about n nodes
    LET w == CHOOSE i \in 1..n : i * i >= n /\ (i - 1) * (i - 1) < n IN
    CASE Rnd(sd, 4901, 4) = 0 -> Field2(sd, n \div 2, 1, 0)
      [] Rnd(sd, 4901, 4) = 1 -> Fan(sd, 2 + Rnd(sd, 4902, 4))
      [] OTHER -> Field2(sd, w, w - 1, IF Coin(sd, 4903) THEN 12 ELSE 0)

(* a third (and fourth) triangle on a side, for refusals: overlaps do not matter *)
Fin(ts, sd) ==
    LET inner == {e \in UNION {SidesOf(ts[i]) : i \in DOMAIN ts} : SideCount(ts, e) = 2}
        e == IF inner # {} THEN PickSeq(sd, 1, SetToSeq(inner)) ELSE PickSeq(sd, 1, SetToSeq(Rim(ts)))
        a == CHOOSE x \in e : TRUE
        b == CHOOSE x \in e : x # a
        known == {Corners(ts[i]) : i \in DOMAIN ts}
        cand == {p \in Lat : Proper(<<a, b, p>>) /\ {a, b, p} \notin known}
        ps == Shuffle(sd, 2, SetToSeq(cand))
        k == (IF inner # {} THEN 1 ELSE 2) + Rnd(sd, 3, 2)
        d == ts[1 + Rnd(sd, 4, Len(ts))]        \* readers: also a triangle that is there already
    IN  IF PROP \in {"C01", "C02"} /\ Rnd(sd, 5, 3) = 0 THEN ts \o <<PickSeq(sd, 6, <<d, <<d[2], d[3], d[1]>>, <<d[2], d[1], d[3]>>>>)>>
        ELSE ts \o [i \in 1..k |-> <<a, b, ps[i]>>]

(* Affine placement: exact decimals, some not representable in binary      *)
Affs == << <<"1", "0", "0", "1", "0", "0", "0">>,
           <<"0.25", "0", "0", "0.25", "-0.5", "0.125", "0">>,
           <<"0.1", "0.02", "-0.03", "0.15", "0.3", "-0.7", "0">>,
           <<"100", "0", "25", "75", "-40", "1000", "0">>,
           <<"0.6", "-0.8", "0.8", "0.6", "2", "3", "0">>,
           <<"1.5", "0.5", "0.25", "1", "-3", "-2", "0.75">>,
           <<"-2", "0.5", "0.5", "2", "10", "20", "-1.5">>,
           <<"0.02", "0", "0", "0.03", "0", "0.05", "0">>,
           <<"0.00001", "0", "0", "0.00001", "0", "0", "0">>,
           <<"0.000002", "0.0000005", "0", "0.000003", "0.00001", "0", "0">>,
           <<"0.00000000002", "0.000000000005", "0", "0.00000000003", "0.0000000001", "0", "0">>,
           <<"3000000", "0", "1000000", "2000000", "0", "0", "0">>,
           <<"1", "0", "0", "1", "300", "-45", "0">>,
           <<"1", "0", "0", "1", "200000", "-30000", "0">>,      \* far away: coordinates agree in many digits
           <<"1", "0", "0", "0.04", "0", "0", "0">>,
           <<"200", "0", "0", "0.001", "0", "0", "0">>,           \* very slender
           <<"2", "1.8", "1", "1.1", "0", "-1", "0">>,
           <<"-1", "0", "0", "-1", "-0.25", "-0.5", "0.25">> >>
Place(a, p) == <<RAdd(a[5], RAdd(RMul(a[1], p[1]), RMul(a[2], p[2]))),
                 RAdd(a[6], RAdd(RMul(a[3], p[1]), RMul(a[4], p[2]))), RNorm(a[7])>>
(* Points off the lattice: a lot, a little, or not at all                   *)
Off(sd, j, kind) == LET k == RInt(Rnd(sd, j, 5) - 2) IN
    CASE kind = "much" -> RMul("0.06", k) [] kind = "bit" -> RMul("0.0001", k) [] OTHER -> "0"
Shaken(sd, kind, p) == <<RAdd(RInt(p[1]), Off(sd, 7000 + 10 * p[1] + p[2], kind)),
                         RAdd(RInt(p[2]), Off(sd, 7500 + 10 * p[1] + p[2], kind))>>
Twice2(a, b, d) == RSub(RMul(RSub(b[1], a[1]), RSub(d[2], a[2])), RMul(RSub(b[2], a[2]), RSub(d[1], a[1])))
ShakeKind(sd, ts) ==        \* not if a triangle suffers
    LET kind == PickSeq(sd, 17, <<"no", "no", "much", "much", "much", "bit">>)
        ok(t) == RLe("1/2", RDiv(Twice2(Shaken(sd, kind, t[1]), Shaken(sd, kind, t[2]), Shaken(sd, kind, t[3])), RInt(Twice(t[1], t[2], t[3]))))
    IN  IF \A i \in DOMAIN ts : ok(ts[i]) THEN kind ELSE "no"

Aliases == <<1, 11, 111, 2, 12, 112, 21, 211, 1111, 121, 1112, 22, 1121, 1211, 2111, 122, 212, 221, 222, 1212, 2121, 1122>>
(* A labelled mesh: nodes <<id, position index>>, triangles <<eid, i, j, k>> *)
Ids(sd, j, n, style) ==
    LET q == Shuffle(sd, j, [i \in 1..n |-> i]) IN
    CASE style = 0 -> [i \in 1..n |-> i]
      [] style = 1 -> q
      [] style = 2 -> [i \in 1..n |-> 3 * q[i] + 7]
      [] style = 3 -> [i \in 1..n |-> 1000 * q[i] + Rnd(sd, j + 40 + i, 900)]
      [] style = 4 -> [i \in 1..n |-> 10 * (n - i) + 1]
         \* many numbers with few digits, numbers that differ by round amounts, long numbers
      [] style = 5 -> [i \in 1..n |-> IF q[i] <= Len(Aliases) THEN Aliases[q[i]] ELSE 3000 + i]
      [] style = 6 -> [i \in 1..n |-> LET k == q[i] - 1 IN (k % 4) + 1 + PickSeq(sd, j + 61, <<100, 1000, 10000, 100000, 1000000, 256, 1024, 4096, 65536>>) * (k \div 4)]
      [] style = 7 -> [i \in 1..n |-> 70000000 + 12345 * q[i]]
      [] OTHER -> [i \in 1..n |-> 99999999 - q[i]]
Styles == 9
Turn(t, k, flip) ==
    LET u == IF k = 0 THEN t ELSE IF k = 1 THEN <<t[2], t[3], t[1]>> ELSE <<t[3], t[1], t[2]>>
    IN  IF flip THEN <<u[2], u[1], u[3]>> ELSE u
Label(sd, npts, idx, nstyle, estyle, shuffle, turn) ==
    LET no == IF shuffle THEN Shuffle(sd, 100, [i \in 1..npts |-> i]) ELSE [i \in 1..npts |-> i]
        eo == IF shuffle THEN Shuffle(sd, 200, idx) ELSE idx
        ni == TLCEval(Ids(sd, 300, npts, nstyle))
        ei == TLCEval(Ids(sd, 400, Len(idx), estyle))
        T(i) == IF turn = "keep" THEN eo[i]
                ELSE IF turn = "ccw" THEN eo[i]
                ELSE Turn(eo[i], Rnd(sd, 500 + i, 3), Coin(sd, 600 + i))
    IN  TLCEval([n |-> [i \in 1..npts |-> <<ni[i], no[i]>>],
         e |-> [i \in DOMAIN eo |-> LET t == T(i) IN <<ei[i], t[1], t[2], t[3]>>]])
IdOf(l, k) == LET i == CHOOSE j \in DOMAIN l.n : l.n[j][2] = k IN l.n[i][1]
ReadOf(o, via, l, pts, more) ==
    [op |-> "read", o |-> o, via |-> via,
     xyz |-> [i \in DOMAIN l.n |-> LET p == pts[l.n[i][2]] IN <<l.n[i][1], p[1], p[2], p[3]>>],
     elems |-> [i \in DOMAIN l.e |-> <<l.e[i][1], IdOf(l, l.e[i][2]), IdOf(l, l.e[i][3]), IdOf(l, l.e[i][4])>>]]
    @@ more

-----------------------------------------------------------------------------
(* Properties: positive definite laminates by construction                 *)

LowTri(sd, j, n) == [r \in 1..n |-> [k \in 1..n |->
    IF k > r THEN 0 ELSE IF k = r THEN 1 + Rnd(sd, j + 10 * r + k, 3)
    ELSE Rnd(sd, j + 10 * r + k, 5) - 2]]
RECURSIVE ISum(_)
ISum(q) == IF q = <<>> THEN 0 ELSE Head(q) + ISum(Tail(q))
Gram(L) == [r \in DOMAIN L |-> [k \in DOMAIN L |-> ISum([i \in DOMAIN L |-> L[r][i] * L[k][i]])]]
Block(G, r0, c0, n, sc) == [r \in 1..n |-> [k \in 1..n |-> RMul(sc, RInt(G[r0 + r][c0 + k]))]]
Scales == <<"1", "1", "100", "0.125", "12.5">>
Worlds == <<"1", "1", "1", "70000000000", "0.000001", "0.000000000002">>      \* units of the whole chain
Thicks == << <<"0.5", "1", "2", "0.1", "0.004", "0.25">>, <<"0.5", "1", "2">>, <<"0.1", "0.25", "0.5">>,
             <<"0.004", "0.003", "0.005">>, <<"10", "20", "8">> >>
Kappas == <<"5/6", "1", "2/3", "1/2", "0.9">>
Times(f, M) == [r \in DOMAIN M |-> [k \in DOMAIN M[r] |-> RMul(f, M[r][k])]]
MkProp(sd, j, nm, style) ==     \* three plies with stiffness Q at height z
    LET Q == [i \in 1..3 |-> Gram(LowTri(sd, j + 30 * i, 3))]
        z == PickSeq(sd, j + 95, <<<<-2, 0, 1>>, <<-1, 1, 3>>, <<-1, 0, 1>>, <<1, 2, -3>>, <<2, 3, 2>>, <<1, 1, -1>>>>)
        S == Gram(LowTri(sd, j + 170, 2))
        world == PickSeq(sd, 880, Worlds)
        sc == RMul(world, PickSeq(sd, j + 90, Scales))
        kind == Rnd(sd, j + 96, 6)      \* sometimes symmetric or without coupling terms
        zs == PickSeq(sd, 882, <<"1", "1", "0.125", "1", "4", "0.000001">>)     \* unit of the heights
        W(f(_)) == [r \in 1..3 |-> [k \in 1..3 |->
                      RMul(sc, RInt(ISum([i \in 1..3 |-> f(z[i]) * Q[i][r][k]])))]]
        E == Block(S, 0, 0, 2, RMul(world, PickSeq(sd, j + 91, Scales)))
        plain(M) == IF kind # 1 THEN M ELSE [r \in 1..3 |-> [k \in 1..3 |-> IF (r = 3) # (k = 3) THEN "0" ELSE M[r][k]]]
        Zero3 == [r \in 1..3 |-> [k \in 1..3 |-> "0"]]
    IN  [name |-> nm,
         A |-> plain(W(LAMBDA y : 1)), B |-> IF kind \in {0, 1} THEN Zero3 ELSE Times(zs, W(LAMBDA y : y)),
         D |-> Times(RMul(zs, zs), plain(W(LAMBDA y : y * y))),
         E |-> IF style = "ortho" \/ kind = 1 THEN <<<<E[1][1], "0">>, <<"0", E[2][2]>>>> ELSE E,
         h |-> PickSeq(sd, j + 92, PickSeq(sd, 881, Thicks)),
         k13 |-> PickSeq(sd, j + 93, Kappas), k23 |-> PickSeq(sd, j + 94, Kappas)]
SumProp(p, q, nm) ==
    LET add(M, N) == [r \in DOMAIN M |-> [k \in DOMAIN M[r] |-> RAdd(M[r][k], N[r][k])]]
    IN  [p EXCEPT !.name = nm, !.A = add(p.A, q.A), !.B = add(p.B, q.B), !.D = add(p.D, q.D)]
(* seen after a quarter turn                                               *)
Quarter(p, nm) ==
    LET t(M) == << <<M[2][2], M[1][2], RNeg(M[2][3])>>, <<M[1][2], M[1][1], RNeg(M[1][3])>>,
                   <<RNeg(M[2][3]), RNeg(M[1][3]), M[3][3]>> >>
    IN  [p EXCEPT !.name = nm, !.A = t(p.A), !.B = t(p.B), !.D = t(p.D),
                  !.E = << <<p.E[2][2], RNeg(p.E[1][2])>>, <<RNeg(p.E[1][2]), p.E[1][1]>> >>,
                  !.k13 = p.k23, !.k23 = p.k13]
Nearly(p, nm) ==        \* almost the same
    LET t(M) == [r \in DOMAIN M |-> [k \in DOMAIN M[r] |-> RMul("1.00002", M[r][k])]]
    IN  [p EXCEPT !.name = nm, !.A = t(p.A), !.B = t(p.B), !.D = t(p.D), !.E = t(p.E), !.h = RMul("1.00003", p.h)]
OneOther(p, nm, k) ==       \* the same but for one of its data; no energy becomes negative
    LET q == [p EXCEPT !.name = nm] IN
    CASE k = 0 -> [q EXCEPT !.A = Times("2", @)]
      [] k = 1 -> [q EXCEPT !.B = Times("-1", @)]
      [] k = 2 -> [q EXCEPT !.D = Times("3", @)]
      [] k = 3 -> [q EXCEPT !.E = Times("2", @)]
      [] k = 4 -> [q EXCEPT !.h = RMul("3", @)]
      [] k = 5 -> [q EXCEPT !.k13 = IF @ = "5/6" THEN "1/2" ELSE "5/6"]
      [] OTHER -> [q EXCEPT !.k23 = IF @ = "5/6" THEN "1/2" ELSE "5/6"]
Stiffer(p, nm, f) ==    \* the same material in other amounts
    [p EXCEPT !.name = nm, !.A = Times(f, @), !.B = Times(f, @), !.D = Times(f, @), !.E = Times(f, @)]
Names == <<"p1", "p2", "p3">>
PoolOf(sd, style) ==
    LET p1 == MkProp(sd, 1000, "p1", style)
        p2 == CASE Rnd(sd, 18, 6) = 0 -> Nearly(p1, "p2") [] Rnd(sd, 18, 6) = 1 -> OneOther(p1, "p2", Rnd(sd, 19, 7))
                [] Rnd(sd, 18, 6) = 2 -> Stiffer(MkProp(sd, 1300, "p2", style), "p2", PickSeq(sd, 19, <<"100000", "0.00001">>))
                [] OTHER -> MkProp(sd, 1300, "p2", style)
        p3 == IF Rnd(sd, 26, 6) = 0 THEN OneOther(p1, "p3", Rnd(sd, 27, 7)) ELSE MkProp(sd, 1600, "p3", style)
    IN  <<p1, p2, p3,
          SumProp(p1, p2, "p1+p2"), SumProp(p2, p3, "p2+p3"), SumProp(p3, p1, "p3+p1"),
          Quarter(p1, "p1'"), Quarter(p2, "p2'"), Quarter(p3, "p3'")>>
PoolStyle == IF PROP = "C19" THEN "ortho" ELSE "full"
Plus1(nm) == IF nm = "p1" THEN "p2" ELSE IF nm = "p2" THEN "p3" ELSE "p1"

-----------------------------------------------------------------------------
(* Scripts: sequences of templates, expanded when their turn comes         *)

Alphas == <<"0.08", "0", "0.25", "1", "0.6", "0.01", "0.000002", "3.5">>
Ms == <<"cell-based", "cell-based-no-smoothing", "edge-based">>

R(o, via)      == [t |-> "read", o |-> o, via |-> via]
Mixed(o)       == <<[t |-> "mix", o |-> o]>>
Uni(o, p)      == <<[t |-> "uni", o |-> o, p |-> p]>>
K(o, pfn, h)   == [t |-> "k0", o |-> o, pfn |-> pfn, h |-> h]
St(o, h, kind) == [t |-> "start", o |-> o, h |-> h, kind |-> kind]
KS(o, h, pfn, m, al, mfa) == [t |-> "k0s", o |-> o, h |-> h, pfn |-> pfn, method |-> m, alpha |-> al, mfa |-> mfa, dflt |-> FALSE]
KSD(o, h, pfn) == [KS(o, h, pfn, "cell-based", "0.08", FALSE) EXCEPT !.dflt = TRUE]
G(o, h, pfn, kind) == [t |-> "kG", o |-> o, h |-> h, pfn |-> pfn, kind |-> kind]
C(kind, a, b)  == [t |-> "cmp", kind |-> kind, a |-> a, b |-> b]
Live           == [t |-> "live"]
Via(sd)        == IF Rnd(sd, 11, 3) = 0 THEN "delaunay" ELSE "nastran"

(* now and then the mesh changes between two computations: all nodes or one *)
(* move, or other properties come                                          *)
Changed(sd, h) ==
    IF Rnd(sd, 50, 3) # 0 THEN <<>>
    ELSE (CASE Rnd(sd, 51, 4) < 2 -> <<[t |-> "moveall", o |-> 1]>>
            [] Rnd(sd, 51, 4) = 2 -> <<[t |-> "move", o |-> 1]>>
            [] OTHER -> IF PROP \in {"C08", "C19"} THEN Uni(1, "p3") ELSE Mixed(1) \o <<[t |-> "moveall", o |-> 1]>>) \o
         <<K(1, Coin(sd, 52), h)>>
Shear(sd, m) ==
    <<R(1, Via(sd))>> \o Mixed(1) \o
    <<K(1, Coin(sd, 21), 1), KS(1, 1, Coin(sd, 22), m, PickSeq(sd, 23, Alphas), Coin(sd, 24))>> \o Changed(sd, 3) \o
    <<St(1, 2, "zero"), KS(1, 2, Coin(sd, 25), m, PickSeq(sd, 26, Alphas), Coin(sd, 27))>>

Walk(sd, n) == [i \in 1..n |-> [t |-> "walk", r |-> Rnd(sd, 30 + i, 1000), i |-> i]]

Script(sd) ==
    CASE PROP \in {"C01", "C02", "C03"} ->
            <<R(1, "nastran"), R(2, "delaunay"), [t |-> "readsame", o |-> 3], Live>> \o
            \* the same sources again, after the first meshes have been used and changed
            Uni(1, "p1") \o Uni(2, "p2") \o <<K(1, TRUE, 1), K(2, FALSE, 2),
               [t |-> "move", o |-> 1], [t |-> "move", o |-> 2], [t |-> "move", o |-> 2],
               [t |-> "again", o |-> 4, of |-> 1], [t |-> "again", o |-> 5, of |-> 2],
               [t |-> "rewrite", o |-> 6], Live>> \o
            (IF PROP = "C03" THEN <<[t |-> "readbad", o |-> 7]>> ELSE <<[t |-> "readfin", o |-> 7], Live>>)
      [] PROP \in {"C04", "C05"} ->
            <<R(1, Via(sd))>> \o Uni(1, "p1") \o <<K(1, Coin(sd, 21), 1)>> \o
            (IF Rnd(sd, 22, 3) = 0 THEN <<[t |-> "move", o |-> 1], K(1, Coin(sd, 23), 2), [t |-> "moveall", o |-> 1], K(1, Coin(sd, 25), 3)>>
             ELSE <<KSD(1, 1, TRUE), G(1, 2, FALSE, "rand"), K(1, Coin(sd, 24), 3)>>)
      [] PROP = "C06" ->
            <<R(1, Via(sd))>> \o Mixed(1) \o <<K(1, TRUE, 1), K(1, FALSE, 2)>> \o Changed(sd, 3)
      [] PROP = "C07" ->
            <<R(1, Via(sd))>> \o Mixed(1) \o <<K(1, Coin(sd, 21), 1)>> \o Mixed(1) \o <<K(1, Coin(sd, 22), 2)>> \o Changed(sd, 3)
      [] PROP = "C08" ->
            <<R(1, Via(sd))>> \o Uni(1, "p1") \o <<K(1, TRUE, 1), K(1, FALSE, 2)>> \o Changed(sd, 3)
      [] PROP = "C09" ->
            <<R(1, Via(sd))>> \o
            (CASE Rnd(sd, 20, 4) = 0 ->     \* equal properties: modes agree
                    Uni(1, "p2") \o <<K(1, TRUE, 1), K(1, FALSE, 2), C("equal", 1, 2)>> \o
                    <<St(1, 3, "zero"), St(1, 4, "zero"), KS(1, 3, TRUE, Ms[1], "0.25", FALSE),
                      KS(1, 4, FALSE, Ms[1], "0.25", FALSE), C("equal", 3, 4),
                      KS(1, 3, TRUE, Ms[2], "0.25", TRUE), KS(1, 4, FALSE, Ms[2], "0.25", TRUE), C("equal", 3, 4),
                      St(1, 5, "zero"), St(1, 6, "zero"),
                      KS(1, 5, TRUE, Ms[3], "0.25", FALSE), KS(1, 6, FALSE, Ms[3], "0.25", FALSE), C("equal", 5, 6),
                      G(1, 7, TRUE, "rand"), G(1, 8, FALSE, "rand"), C("equal", 7, 8)>>
               [] Rnd(sd, 20, 4) = 1 ->     \* linear in the data
                    Mixed(1) \o <<K(1, TRUE, 1), K(1, FALSE, 2), G(1, 7, TRUE, "same"), G(1, 8, FALSE, "same"),
                                  [t |-> "next", o |-> 1], K(1, TRUE, 3), K(1, FALSE, 4),
                                  G(1, 9, TRUE, "same"), G(1, 10, FALSE, "same"),
                                  [t |-> "sums", o |-> 1], K(1, TRUE, 5), K(1, FALSE, 6),
                                  G(1, 11, TRUE, "same"), G(1, 12, FALSE, "same"),
                                  [t |-> "cmp", kind |-> "sum", a |-> 1, b |-> 3, c |-> 5],
                                  [t |-> "cmp", kind |-> "sum", a |-> 2, b |-> 4, c |-> 6],
                                  [t |-> "cmp", kind |-> "sum", a |-> 7, b |-> 9, c |-> 11],
                                  [t |-> "cmp", kind |-> "sum", a |-> 8, b |-> 10, c |-> 12]>>
               [] Rnd(sd, 20, 4) = 2 ->     \* local
                    Mixed(1) \o <<K(1, TRUE, 1), KS(1, 1, TRUE, Ms[1 + Rnd(sd, 21, 3)], "0.25", FALSE),
                                  K(1, FALSE, 2), KS(1, 2, FALSE, Ms[1 + Rnd(sd, 21, 3)], "0.25", FALSE),
                                  [t |-> "onen", o |-> 1],
                                  K(1, TRUE, 3), KS(1, 3, TRUE, Ms[1 + Rnd(sd, 21, 3)], "0.25", FALSE),
                                  C("local", 1, 3),
                                  [t |-> "onee", o |-> 1],
                                  K(1, FALSE, 4), KS(1, 4, FALSE, Ms[1 + Rnd(sd, 21, 3)], "0.25", FALSE),
                                  C("local", 2, 4)>>
               [] OTHER ->                  \* the stated weights
                    Mixed(1) \o <<K(1, TRUE, 1), K(1, FALSE, 2), G(1, 3, TRUE, "rand"), G(1, 4, FALSE, "rand"),
                                  St(1, 5, "zero"), KS(1, 5, TRUE, PickSeq(sd, 26, Ms), "0.25", FALSE),
                                  KS(1, 5, FALSE, PickSeq(sd, 26, Ms), "0.25", FALSE)>>)
      [] PROP = "C10" ->
            <<[R(1, Via(sd)) EXCEPT !.t = "readiso"]>> \o Mixed(1) \o
            <<K(1, Coin(sd, 21), 1), St(1, 2, "zero"), KS(1, 2, Coin(sd, 22), PickSeq(sd, 23, Ms), "0.08", FALSE),
              G(1, 3, Coin(sd, 24), "rand"), K(1, Coin(sd, 25), 4), Live>>
      [] PROP = "C11" ->
            <<R(1, Via(sd)), [t |-> "twin", o |-> 2, kind |-> PickSeq(sd, 29, <<"label", "order", "turn", "shift", "rot", "all", "all">>)],
              [t |-> "mixboth"],
              K(1, TRUE, 1), K(2, TRUE, 2), C("twin", 1, 2), K(1, FALSE, 3), K(2, FALSE, 4), C("twin", 3, 4),
              St(1, 5, "zero"), St(2, 6, "zero"), KS(1, 5, Coin(sd, 21), Ms[1], "0.25", Coin(sd, 22)),
              KS(2, 6, Coin(sd, 21), Ms[1], "0.25", Coin(sd, 22)), C("twin", 5, 6),
              St(1, 7, "zero"), St(2, 8, "zero"), KS(1, 7, Coin(sd, 23), Ms[2], "0.08", Coin(sd, 24)),
              KS(2, 8, Coin(sd, 23), Ms[2], "0.08", Coin(sd, 24)), C("twinns", 7, 8),
              [t |-> "kGpair", pfn |-> Coin(sd, 25)], C("twin", 9, 10)>>
      [] PROP = "C12" ->
            <<R(1, Via(sd)), R(2, Via(sd))>> \o Mixed(1) \o Uni(2, "p3") \o Walk(sd, 9) \o
            <<[t |-> "fresh", o |-> 1], Live>>
      [] PROP = "C13" ->
            (IF Rnd(sd, 20, 3) = 0 THEN <<[t |-> "readfin", o |-> 1]>> ELSE <<R(1, Via(sd))>>) \o Mixed(1) \o
            <<[t |-> "drop", o |-> 1], K(1, TRUE, 1), K(1, FALSE, 2), St(1, 3, "rand"),
              KS(1, 3, TRUE, PickSeq(sd, 21, <<"edge_based", "cell", "Cell-based", "", "cell-based ", "edge-based-no-smoothing", "none", "based",
                 "EDGE-BASED", "cell-based-smoothing", "node-based", "edge-base", "-", "ell-based", "cell-based-no-smoothin", "edge-based.", "edge">>), "0.08", FALSE),
              [t |-> "drop", o |-> 1], K(1, TRUE, 4), K(1, FALSE, 5)>> \o Mixed(1) \o
            <<K(1, FALSE, 6), K(1, TRUE, 7)>> \o
            [i \in 1..3 |-> [t |-> "ksafe", o |-> 1, h |-> 3, m |-> Ms[i]]] \o <<Live>>
      [] PROP = "C14" -> Shear(sd, Ms[1])
      [] PROP = "C15" -> Shear(sd, Ms[2])
      [] PROP = "C16" -> Shear(sd, Ms[3])
      [] PROP = "C17" ->
            <<R(1, Via(sd))>> \o Mixed(1) \o <<K(1, Coin(sd, 21), 1), St(1, 2, PickSeq(sd, 22, <<"rand", "zero", "fort", "view">>)),
               KS(1, 2, Coin(sd, 23), Ms[1], PickSeq(sd, 24, Alphas), Coin(sd, 25)),
               KS(1, 2, Coin(sd, 26), Ms[2], PickSeq(sd, 27, Alphas), Coin(sd, 28))>> \o Changed(sd, 1) \o
            <<KS(1, 2, Coin(sd, 29), Ms[3], PickSeq(sd, 30, Alphas), Coin(sd, 31))>>
      [] PROP = "C18" ->
            LET m == PickSeq(sd, 21, Ms)  pfn == Coin(sd, 22)  mfa == Coin(sd, 23) IN
            IF Rnd(sd, 50, 3) = 0
            THEN <<R(1, Via(sd))>> \o Mixed(1) \o <<K(1, pfn, 1), St(1, 2, "zero"), KS(1, 2, pfn, m, "0.1", mfa)>> \o
                 Changed(sd, 3) \o
                 <<St(1, 4, "zero"), KS(1, 4, pfn, m, "0.1", mfa), St(1, 5, "zero"), KS(1, 5, pfn, m, "2", mfa), C("mono", 4, 5)>>
            ELSE
            <<R(1, Via(sd))>> \o Mixed(1) \o <<K(1, pfn, 1),
               St(1, 2, "zero"), KS(1, 2, pfn, m, "0", mfa),
               St(1, 3, "zero"), KS(1, 3, pfn, m, PickSeq(sd, 24, <<"0.01", "0.08", "0.1", "0.000003">>), mfa),
               St(1, 4, "zero"), KS(1, 4, pfn, m, PickSeq(sd, 25, <<"0.25", "0.6", "1", "30">>), mfa),
               C("mono", 2, 3), C("mono", 3, 4),
               St(1, 5, "zero"), KSD(1, 5, pfn)>>
      [] PROP = "C19" ->
            <<R(1, Via(sd))>> \o Uni(1, PickSeq(sd, 20, Names)) \o <<K(1, TRUE, 1)>> \o
            Changed(sd, 1) \o FlattenSeq([i \in 1..3 |-> <<St(1, 1 + i, "zero"), KS(1, 1 + i, Coin(sd, 20 + i), Ms[i], "0", Coin(sd, 30 + i))>>])
      [] PROP = "C20" ->
            <<R(1, Via(sd))>> \o Mixed(1) \o <<K(1, Coin(sd, 21), 1), G(1, 2, TRUE, "rand"), G(1, 3, FALSE, "rand")>> \o
            (IF Rnd(sd, 50, 3) = 0 THEN Changed(sd, 4) \o <<G(1, 5, Coin(sd, 53), "rand")>> ELSE <<>>)
      [] PROP = "C21" ->
            LET pfn == Coin(sd, 22) IN
            <<R(1, Via(sd))>> \o Mixed(1) \o
            <<K(1, Coin(sd, 21), 1), G(1, 2, pfn, "rand"), G(1, 3, pfn, "rand2"), G(1, 4, pfn, "comb"),
              [t |-> "cmp", kind |-> "comb", a |-> 2, b |-> 3, c |-> 4],
              G(1, 5, pfn, "rigid"), G(1, 6, pfn, "wonly")>>
      [] PROP = "C29" ->
            <<R(1, "nastran"), R(2, "delaunay"), [t |-> "mids", o |-> 1], [t |-> "mids", o |-> 2]>> \o Uni(1, "p1") \o
            <<[t |-> "lift", o |-> 1], [t |-> "mids", o |-> 1], [t |-> "move", o |-> 2], [t |-> "mids", o |-> 2],
              [t |-> "move", o |-> 1], [t |-> "mids", o |-> 1], K(1, TRUE, 1), [t |-> "move", o |-> 1], [t |-> "mids", o |-> 1]>>
      [] PROP = "C30" ->
            \* refusals are silent, too
            LET refused(h) == <<[t |-> "drop", o |-> 1], K(1, TRUE, h + 1), K(1, FALSE, h + 2)>> IN
            IF Rnd(sd, 20, 8) = 0 THEN <<[t |-> "readfin", o |-> 1]>> \o Mixed(1) \o <<K(1, TRUE, 1), K(1, FALSE, 2)>> \o refused(2)
            ELSE <<R(1, Via(sd))>> \o Mixed(1) \o <<K(1, TRUE, 1), St(1, 2, "rand"),
               KS(1, 2, TRUE, PickSeq(sd, 23, Ms), "0.08", FALSE), G(1, 3, FALSE, "rand"), K(1, FALSE, 4)>> \o
               (CASE Rnd(sd, 24, 3) = 0 -> <<KS(1, 2, TRUE, "edge", "0.08", FALSE)>> \o refused(4)
                  [] Rnd(sd, 24, 3) = 1 -> refused(4)
                  [] OTHER -> <<[t |-> "readbad", o |-> 2]>>)
      [] OTHER -> <<>>

-----------------------------------------------------------------------------
(* Expansion of a template to operations                                   *)

NodeSeq(ob) == SetToSeq(DOMAIN ob.xyz)
ElemSeq(ob) == SetToSeq(DOMAIN ob.ep)
(* how: shared objects, a private copy each, or new values in the private object *)
NPh(o, asg, how) == [op |-> "setnp", o |-> o, asg |-> asg, how |-> how]
EPh(o, asg, how) == [op |-> "setep", o |-> o, asg |-> asg, how |-> how]
NP(o, asg) == NPh(o, asg, "share")
EP(o, asg) == EPh(o, asg, "share")
How(sd, j) == PickSeq(sd, j, <<"share", "own", "inplace", "inplace">>)
RandVec(sd, j, ns) == [i \in DOMAIN ns |->
    <<ns[i], [k \in 1..5 |-> RDiv(RInt(Rnd(sd, j + 10 * i + k, 2001) - 1000), "125")]>>]
(* displacements in units of the chain; some with only a few free nodes    *)
DispVec(sd, j, ob) ==
    LET ns == NodeSeq(ob)
        u == PickSeq(sd, j + 7, <<"1", "1", "0.00000001", "0.0000000000004", "1000000", "125", "15.625">>)
        few == Rnd(sd, j + 8, 4) = 0
        v == RandVec(sd, j, ns)
        \* stretched with little shear, or sheared with little stretch
        lin == IF Coin(sd, j + 5) THEN <<"1", "0.5", "0.0005">> ELSE <<"0.0005", "-0.00025", "1">>
    IN  IF Rnd(sd, j + 6, 6) = 0
        THEN [i \in DOMAIN v |-> LET x == ob.xyz[ns[i]] IN
               <<ns[i], <<RMul(lin[1], x[1]), RAdd(RMul(lin[2], x[2]), RMul(lin[3], x[1])), v[i][2][3], "0", "0">>>>]
        ELSE [i \in DOMAIN v |-> <<v[i][1], [k \in 1..5 |-> IF few /\ Rnd(sd, j + 9 + 6 * i + k, 4) # 0 THEN "0" ELSE RMul(u, v[i][2][k])]>>]
RigidVec(sd, ob, ns) ==
    LET a == RInt(Rnd(sd, 1, 9) - 4)  b == RInt(Rnd(sd, 2, 9) - 4)  t == RInt(Rnd(sd, 3, 9) - 4) IN
    [i \in DOMAIN ns |-> LET x == ob.xyz[ns[i]] IN
      <<ns[i], <<RSub(a, RMul(t, x[2])), RAdd(b, RMul(t, x[1])), RInt(Rnd(sd, 10 + i, 9)), "0.5", "-2">>>>]

(* a small move that keeps every triangle at the node well shaped          *)
MoveOk(ob, v, p) ==
    LET m == [xyz |-> [ob.xyz EXCEPT ![v] = p], elems |-> ob.elems] IN
    \A i \in DOMAIN ob.elems : v \in Verts(ob.elems[i]) =>
        LET el == ob.elems[i]
            old == Cross(Vec(ob.xyz[el.n[1]], ob.xyz[el.n[2]]), Vec(ob.xyz[el.n[1]], ob.xyz[el.n[3]]))
            new == Cross(Vec(m.xyz[el.n[1]], m.xyz[el.n[2]]), Vec(m.xyz[el.n[1]], m.xyz[el.n[3]]))
        IN  RLe(RMul("1/4", RSq(old)), RMul(old, new))
MoveOp(sd, o, ob) ==
    LET es == SetToSeq(EdgesOf(ob.elems))
        e == PickSeq(sd, 1, es)
        a == CHOOSE x \in e : TRUE  b == CHOOSE x \in e : x # a
        f == PickSeq(sd, 2, <<"0.25", "0.125", "-0.125", "-0.25">>)
        p == VLin(RSub("1", f), ob.xyz[a], f, ob.xyz[b])
        q == IF MoveOk(ob, a, <<p[1], p[2], ob.xyz[a][3]>>) THEN <<p[1], p[2], ob.xyz[a][3]>> ELSE ob.xyz[a]
    IN  [op |-> "move", o |-> o, node |-> a, to |-> q, inplace |-> Coin(sd, 3)]

(* all nodes at once: shifted, mirrored, scaled or turned                  *)
MoveAll(sd, o, ob) ==
    LET ns == NodeSeq(ob)
        k == Rnd(sd, 1, 5)
        in == Coin(sd, 2)
        x0 == ob.xyz[ns[1]]
        f(x) == CASE k = 0 -> <<RAdd(x[1], RSub(x0[2], x0[1])), RSub(x[2], RMul("2", x0[2])), x[3]>>
                  [] k = 1 -> <<RNeg(x[1]), x[2], x[3]>>
                  [] k = 2 -> <<RMul("2", x[1]), RMul("0.5", x[2]), x[3]>>
                  [] k = 3 -> <<RNeg(x[2]), x[1], x[3]>>
                  [] OTHER -> <<x[2], x[1], RAdd(x[3], "0.25")>>
    IN  [i \in DOMAIN ns |-> [op |-> "move", o |-> o, node |-> ns[i], to |-> f(ob.xyz[ns[i]]), inplace |-> in]]

(* Points <-> labels of the mesh in this chain are in lab                  *)
SameRead(o, via) == ReadOf(o, via, lab.d, lab.pts, [cmpto |-> 2])

TwinMap == [i \in DOMAIN lab.a.n |-> <<lab.a.n[i][1], IdOf(lab.t, lab.a.n[i][2])>>]
TwinElem(eid) ==      \* the triangle of the twin with the same corners
    LET i == CHOOSE k \in DOMAIN lab.a.e : lab.a.e[k][1] = eid
        cs == {lab.a.e[i][2], lab.a.e[i][3], lab.a.e[i][4]}
        j == CHOOSE k \in DOMAIN lab.t.e : {lab.t.e[k][2], lab.t.e[k][3], lab.t.e[k][4]} = cs
    IN  lab.t.e[j][1]
Primed(nm) == IF lab.rot = 0 THEN nm ELSE nm \o "'"
TurnVec(v) == IF lab.rot = 0 THEN v ELSE <<RNeg(v[2]), v[1], v[3], RNeg(v[5]), v[4]>>

(* Walks of C12: operations on object 1, with others on object 2 between   *)
HasWarm(ob) == ob.geo = "fresh"
WalkOp(sd, tm) ==
    LET o == IF Rnd(sd, 1, 4) = 0 THEN 2 ELSE 1
        ob == s.objs[o]
        pfn == Coin(sd, 2)
        h == Top(s.mats) + 1
        k == Rnd(sd, 3, 14)
        hs == SelectSeq(SetToSeq(DOMAIN s.mats), LAMBDA i : s.mats[i].nodes = DOMAIN ob.xyz
                          /\ \E j \in DOMAIN ops : ops[j].op \in {"k0", "start"} /\ ops[j].h = i /\ ops[j].o = o
                                   /\ ~\E r \in j..Len(ops) : ops[r].op = "read" /\ ops[r].o = o)
        KSop(hh) == [op |-> "k0s", o |-> o, h |-> hh, pfn |-> pfn, method |-> PickSeq(sd, 4, Ms),
                     alpha |-> PickSeq(sd, 5, Alphas), mfa |-> Coin(sd, 6), dflt |-> FALSE]
    IN  CASE k \in {0, 1} -> <<[op |-> "k0", o |-> o, pfn |-> pfn, h |-> h]>>
          [] k = 2 -> <<MoveOp(sd, o, ob)>>
          [] k = 12 -> MoveAll(sd, o, ob)
          [] k = 3 -> <<NPh(o, <<<<PickSeq(sd, 7, NodeSeq(ob)), PickSeq(sd, 8, Names)>>>>, How(sd, 9)),
                        EPh(o, <<<<PickSeq(sd, 7, ElemSeq(ob)), PickSeq(sd, 8, Names)>>>>, How(sd, 9))>>
          [] k = 10 ->
                <<NPh(o, [i \in DOMAIN NodeSeq(ob) |-> <<NodeSeq(ob)[i], PickSeq(sd, 100 + i, Names)>>], How(sd, 9)),
                  EPh(o, [i \in DOMAIN ElemSeq(ob) |-> <<ElemSeq(ob)[i], PickSeq(sd, 200 + i, Names)>>], How(sd, 9))>>
          [] k = 11 ->       \* the second mesh goes, another one takes its name
                LET l == IF Coin(sd, 7) THEN lab.a ELSE lab.d
                    u == PickSeq(sd, 8, Names) IN
                <<ReadOf(2, "nastran", l, lab.pts, [fmt |-> "small", cp |-> 0, file |-> "f2"]),
                  NP(2, [i \in DOMAIN l.n |-> <<l.n[i][1], u>>]), EP(2, [i \in DOMAIN l.e |-> <<l.e[i][1], u>>])>>
          [] k \in {4, 5} /\ ob.geo = "fresh" /\ hs # <<>> -> <<KSop(PickSeq(sd, 9, hs))>>
          [] k \in {6, 7} /\ ob.geo = "fresh" ->
                <<[op |-> "kG", o |-> o, h |-> h, pfn |-> pfn, d |-> DispVec(sd, 50, ob)]>>
          [] k = 8 -> <<[op |-> "start", o |-> o, h |-> h, kind |-> PickSeq(sd, 7, <<"rand", "fort", "view">>)]>>
          [] OTHER -> <<[op |-> "k0", o |-> o, pfn |-> pfn, h |-> h],
                        [op |-> "k0", o |-> o, pfn |-> pfn, h |-> h + 1],
                        [op |-> "cmp", kind |-> "equal", a |-> h, b |-> h + 1]>>

(* A freshly read mesh with the data object o has now, and the comparison of all matrices *)
FreshOps(sd, o) ==
    LET ob == s.objs[o]
        f == Len(s.objs) + 1
        ns == LET r == ops[CHOOSE i \in DOMAIN ops : ops[i].op = "read" /\ ops[i].o = o /\ \A j \in DOMAIN ops : ops[j].op = "read" /\ ops[j].o = o => j <= i] IN r
        h == Top(s.mats)
        d == DispVec(sd, 50, ob)
        m == PickSeq(sd, 4, Ms)
        al == PickSeq(sd, 5, Alphas)
        mfa == Coin(sd, 6)
        pf == [i \in 1..4 |-> Coin(sd, 20 + i)]
        Four(q, k) == <<[op |-> "k0", o |-> q, pfn |-> pf[1], h |-> k + 1],
                     [op |-> "start", o |-> q, h |-> k + 2, kind |-> "zero"],
                     [op |-> "k0s", o |-> q, h |-> k + 2, pfn |-> pf[2], method |-> m, alpha |-> al, mfa |-> mfa, dflt |-> FALSE],
                     [op |-> "kG", o |-> q, h |-> k + 3, pfn |-> pf[3], d |-> d]>>
    IN  Four(o, h) \o
        <<[ns EXCEPT !.o = f, !.xyz = [i \in DOMAIN @ |-> LET p == ob.xyz[@[i][1]] IN <<@[i][1], p[1], p[2], p[3]>>]],
          NP(f, [i \in DOMAIN NodeSeq(ob) |-> <<NodeSeq(ob)[i], ob.np[NodeSeq(ob)[i]]>>]),
          EP(f, [i \in DOMAIN ElemSeq(ob) |-> <<ElemSeq(ob)[i], ob.ep[ElemSeq(ob)[i]]>>])>> \o
        Four(f, h + 3) \o
        <<[op |-> "cmp", kind |-> "equal", a |-> h + 1, b |-> h + 4],
          [op |-> "cmp", kind |-> "equal", a |-> h + 2, b |-> h + 5],
          [op |-> "cmp", kind |-> "equal", a |-> h + 3, b |-> h + 6]>>

Expand(tm, sd) ==
    CASE tm.t = "read" ->
            IF tm.via = "nastran"
            THEN <<ReadOf(tm.o, "nastran", lab.a, lab.pts, [fmt |-> PickSeq(sd, 1, <<"small", "large", "free", "mixed">>), dress |-> Rnd(sd, 3, 16),
                                                             file |-> "f" \o ToString(tm.o),
                                                             cp |-> IF PROP = "C03" THEN PickSeq(sd, 2, <<0, 0, 1, 2, 3, 4>>) ELSE 0])>>
            ELSE <<ReadOf(tm.o, "delaunay", lab.d, lab.pts, [flat |-> Rnd(sd, 1, 3) = 0, cloud |-> "c",
                                                             form |-> PickSeq(sd, 2, <<"array", "array", "lists", "ints", "columns">>)])>>
      [] tm.t = "again" -> LET i == CHOOSE k \in DOMAIN ops : ops[k].op = "read" /\ ops[k].o = tm.of IN
                           <<[ops[i] EXCEPT !.o = tm.o]>>
      [] tm.t = "rewrite" ->     \* another mesh of the same size in the file of the first one
            <<ReadOf(tm.o, "nastran", lab.d, lab.pts, [fmt |-> "small", cp |-> 0, file |-> "f1"])>>
      [] tm.t = "readiso" ->
            IF tm.via = "nastran"
            THEN <<ReadOf(tm.o, "nastran", lab.i, lab.pts, [fmt |-> "small", cp |-> 0])>>
            ELSE <<ReadOf(tm.o, "delaunay", lab.id, lab.pts, [flat |-> Rnd(sd, 1, 3) = 0])>>
      [] tm.t = "readsame" -> <<ReadOf(tm.o, "nastran", lab.d, lab.pts, [fmt |-> "small", cp |-> 0, cmpto |-> 2])>>
      [] tm.t = "readbad" -> <<ReadOf(tm.o, "nastran", lab.a, lab.pts,
              [fmt |-> "small", cp |-> 0,
               foreign |-> PickSeq(sd, 3, <<"CQUAD4", "CROD", "CTRIA6", "CBAR", "CTETRA", "CQUAD8", "CQUADR", "CELAS1",
                                         "CTRIAR", "CSHEAR", "CHEXA", "CPENTA", "CBEAM", "CTUBE", "CONROD", "CDAMP1", "CBUSH">>),
               at |-> PickSeq(sd, 4, <<"first", "last", "middle">>)])>>
      [] tm.t = "readfin" -> <<ReadOf(tm.o, "nastran", lab.f, lab.fpts, [fmt |-> "small", cp |-> 0])>>
      [] tm.t = "twin" -> <<ReadOf(tm.o, "nastran", lab.t, lab.tpts, [fmt |-> "small", cp |-> 0])>>
      [] tm.t = "mix" ->
            LET ob == s.objs[tm.o] IN
            <<NP(tm.o, [i \in DOMAIN NodeSeq(ob) |-> <<NodeSeq(ob)[i], PickSeq(sd, 10 + i, Names)>>]),
              EP(tm.o, [i \in DOMAIN ElemSeq(ob) |-> <<ElemSeq(ob)[i], PickSeq(sd, 50 + i, Names)>>])>>
      [] tm.t = "mixboth" ->
            LET ob == s.objs[1]
                a == [i \in DOMAIN NodeSeq(ob) |-> <<NodeSeq(ob)[i], PickSeq(sd, 10 + i, Names)>>]
                e == [i \in DOMAIN ElemSeq(ob) |-> <<ElemSeq(ob)[i], PickSeq(sd, 50 + i, Names)>>]
                to(v) == LET i == CHOOSE k \in DOMAIN TwinMap : TwinMap[k][1] = v IN TwinMap[i][2]
            IN  <<NP(1, a), EP(1, e),
                  NP(2, [i \in DOMAIN a |-> <<to(a[i][1]), Primed(a[i][2])>>]),
                  EP(2, [i \in DOMAIN e |-> <<TwinElem(e[i][1]), Primed(e[i][2])>>])>>
      [] tm.t = "kGpair" ->
            LET d == DispVec(sd, 50, s.objs[1])
                to(v) == LET i == CHOOSE k \in DOMAIN TwinMap : TwinMap[k][1] = v IN TwinMap[i][2]
            IN  <<[op |-> "kG", o |-> 1, h |-> 9, pfn |-> tm.pfn, d |-> d],
                  [op |-> "kG", o |-> 2, h |-> 10, pfn |-> tm.pfn,
                   d |-> [i \in DOMAIN d |-> <<to(d[i][1]), TurnVec(d[i][2])>>]]>>
      [] tm.t = "uni" ->
            LET ob == s.objs[tm.o] IN
            <<NP(tm.o, [i \in DOMAIN NodeSeq(ob) |-> <<NodeSeq(ob)[i], tm.p>>]),
              EP(tm.o, [i \in DOMAIN ElemSeq(ob) |-> <<ElemSeq(ob)[i], tm.p>>])>>
      [] tm.t = "next" ->
            LET ob == s.objs[tm.o] IN
            <<NP(tm.o, [i \in DOMAIN NodeSeq(ob) |-> <<NodeSeq(ob)[i], Plus1(ob.np[NodeSeq(ob)[i]])>>]),
              EP(tm.o, [i \in DOMAIN ElemSeq(ob) |-> <<ElemSeq(ob)[i], Plus1(ob.ep[ElemSeq(ob)[i]])>>])>>
      [] tm.t = "sums" ->       \* current q is Plus1 of the original p: assign p + q
            LET ob == s.objs[tm.o]
                w(q) == IF q = "p2" THEN "p1+p2" ELSE IF q = "p3" THEN "p2+p3" ELSE "p3+p1" IN
            <<NP(tm.o, [i \in DOMAIN NodeSeq(ob) |-> <<NodeSeq(ob)[i], w(ob.np[NodeSeq(ob)[i]])>>]),
              EP(tm.o, [i \in DOMAIN ElemSeq(ob) |-> <<ElemSeq(ob)[i], w(ob.ep[ElemSeq(ob)[i]])>>])>>
      [] tm.t = "onen" -> LET v == PickSeq(sd, 1, SetToSeq(UsedNodes(s.objs[tm.o]))) IN
                          <<NP(tm.o, <<<<v, Plus1(s.objs[tm.o].np[v])>>>>)>>
      [] tm.t = "onee" -> LET v == PickSeq(sd, 1, ElemSeq(s.objs[tm.o])) IN
                          <<EP(tm.o, <<<<v, Plus1(s.objs[tm.o].ep[v])>>>>)>>
      [] tm.t = "drop" ->
            LET ob == s.objs[tm.o]
                k == Rnd(sd, 1, 8)
                inner == SetToSeq(InnerNodes(MeshOfObj(ob)))
                one == IF inner # <<>> /\ k # 6 THEN PickSeq(sd, 2, inner) ELSE PickSeq(sd, 2, SetToSeq(UsedNodes(ob)))
                ns == SelectSeq(NodeSeq(ob), LAMBDA v : Rnd(sd, 100 + (v % 500), 4) = 0)
                es == SelectSeq(ElemSeq(ob), LAMBDA v : Rnd(sd, 700 + (v % 500), 4) = 0)
            IN  (IF k \in {4, 5, 6} THEN <<NP(tm.o, <<<<one, None>>>>)>> ELSE <<>>) \o
                (IF k \in {6, 7} THEN <<EP(tm.o, <<<<PickSeq(sd, 3, ElemSeq(ob)), None>>>>)>> ELSE <<>>) \o
                (IF k \in {1, 3} THEN <<NP(tm.o, [i \in DOMAIN ns |-> <<ns[i], None>>])>> ELSE <<>>) \o
                (IF k \in {2, 3} THEN <<EP(tm.o, [i \in DOMAIN es |-> <<es[i], None>>])>> ELSE <<>>)
      [] tm.t = "move" -> <<MoveOp(sd, tm.o, s.objs[tm.o])>>
      [] tm.t = "moveall" -> MoveAll(sd, tm.o, s.objs[tm.o])
      [] tm.t = "mids" -> <<[op |-> "mids", o |-> tm.o]>>
      [] tm.t = "lift" ->       \* a node leaves the plane
            LET v == PickSeq(sd, 1, NodeSeq(s.objs[tm.o]))  p == s.objs[tm.o].xyz[v] IN
            <<[op |-> "move", o |-> tm.o, node |-> v, to |-> <<p[1], p[2], PickSeq(sd, 2, <<"0.125", "-2", "0.3">>)>>, inplace |-> Coin(sd, 3)]>>
      [] tm.t = "k0" -> <<[op |-> "k0", o |-> tm.o, pfn |-> tm.pfn, h |-> tm.h,
                           vec |-> RandVec(sd, 900, NodeSeq(s.objs[tm.o]))]>>
      [] tm.t = "start" -> <<[op |-> "start", o |-> tm.o, h |-> tm.h, kind |-> tm.kind]>>
      [] tm.t = "k0s" -> <<[op |-> "k0s", o |-> tm.o, h |-> tm.h, pfn |-> tm.pfn, method |-> tm.method,
                            alpha |-> tm.alpha, mfa |-> tm.mfa, dflt |-> tm.dflt,
                            vec |-> RandVec(sd, 900, NodeSeq(s.objs[tm.o]))]>>
      [] tm.t = "ksafe" -> IF ~Ready(s.objs[tm.o], TRUE) THEN <<>> ELSE
                           <<[op |-> "k0s", o |-> tm.o, h |-> tm.h, pfn |-> TRUE, method |-> tm.m,
                              alpha |-> "0.08", mfa |-> FALSE, dflt |-> FALSE]>>
      [] tm.t = "kG" ->
            LET ob == s.objs[tm.o]
                r1 == DispVec(lab.seed, 50, ob)
                r2 == DispVec(lab.seed, 3050, ob)
                d == CASE tm.kind = "rand" -> r1
                       [] tm.kind = "same" -> r1
                       [] tm.kind = "rand2" -> r2
                       [] tm.kind = "comb" -> [i \in DOMAIN r1 |-> <<r1[i][1], [k \in 1..5 |->
                                                 RAdd(RMul("2", r1[i][2][k]), RMul("-0.5", r2[i][2][k]))]>>]
                       [] tm.kind = "rigid" -> RigidVec(sd, ob, NodeSeq(ob))
                       [] OTHER -> [i \in DOMAIN r1 |-> <<r1[i][1], <<"0", "0", r1[i][2][3], "0", "0">>>>]
            IN  <<[op |-> "kG", o |-> tm.o, h |-> tm.h, pfn |-> tm.pfn, d |-> d, kind |-> tm.kind]>>
      [] tm.t = "cmp" ->
            IF tm.kind \in {"twin", "twinns"}
            THEN IF tm.kind = "twinns" /\ lab.turned THEN <<>>
                 ELSE <<[op |-> "cmp", kind |-> "twin", a |-> tm.a, b |-> tm.b, map |-> TwinMap, rot |-> lab.rot]>>
            ELSE IF tm.kind \in {"sum", "comb"} THEN <<[op |-> "cmp", kind |-> tm.kind, a |-> tm.a, b |-> tm.b, c |-> tm.c]>>
            ELSE <<[op |-> "cmp", kind |-> tm.kind, a |-> tm.a, b |-> tm.b]>>
      [] tm.t = "walk" -> WalkOp(sd, tm)
      [] tm.t = "fresh" -> FreshOps(sd, tm.o)
      [] tm.t = "live" -> <<[op |-> "live"]>>
      [] OTHER -> <<>>

-----------------------------------------------------------------------------
(* The generator as a state machine                                        *)

PropSalt == CHOOSE i \in 0..99 : PROP = "C" \o (IF i < 10 THEN "0" ELSE "") \o ToString(i)

ChainSeed(k) == LET a == (SEED0 % 1000) * 131 + k * 977 + PropSalt * 31 IN NextSeed(NextSeed(a % SeedMod))

Init ==
    /\ c \in FIRST..(FIRST + CHAINS - 1)
    /\ seed = ChainSeed(c)
    /\ want = IF Big(c) THEN 1 ELSE 1 + (CASE Rnd(seed, 7, 15) < 3 -> Rnd(seed, 8, 3)
                      [] Rnd(seed, 7, 15) = 3 -> MAXT + Rnd(seed, 9, MAXT)
                      [] OTHER -> Rnd(seed, 9, MAXT))
    /\ tris = IF Big(c) THEN BigMesh(seed, BIGN) ELSE <<PickSeq(seed, 1, FirstTris)>>
    /\ ph = (IF Big(c) THEN "made" ELSE "grow") /\ lab = <<>> /\ s = EmptySession /\ script = <<>> /\ ops = <<>>

Grow ==
    /\ ph = "grow" /\ Len(tris) < want
    /\ tris' = GrowStep(tris, seed)
    /\ seed' = NextSeed(seed)
    /\ want' = IF tris' = tris THEN want - 1 ELSE want
    /\ UNCHANGED <<c, ph, lab, s, script, ops>>

LabelMesh ==
    /\ ph = "made" \/ (ph = "grow" /\ Len(tris) >= want)
    /\ \E ps \in {TLCEval(Shuffle(seed, 5000, SetToSeq(PointsOf(tris))))} :
       LET at(p) == CHOOSE i \in DOMAIN ps : ps[i] = p
           \* a crack: one triangle has its own copy of a corner
           crack == IF Rnd(seed, 6, 5) = 0 THEN Rnd(seed, 12, Len(tris)) + 1 ELSE 0
           corner == 1 + Rnd(seed, 13, 3)
           idx0 == TLCEval([i \in DOMAIN tris |-> [k \in 1..3 |->
                     IF i = crack /\ k = corner THEN Len(ps) + 1 ELSE at(tris[i][k])]])
       IN  \E idx \in {idx0} :
       LET
           own == IF crack = 0 THEN ps ELSE Append(ps, tris[crack][corner])
           aff == PickSeq(seed, 2, Affs)
           iso == SelectSeq(SetToSeq(Lat), LAMBDA p : p \notin PointsOf(tris) /\
                     \A i \in DOMAIN tris : ~StrictlyIn(p, tris[i]))
           \* points of no triangle, some at the place of another point
           niso == IF PROP = "C10" THEN Rnd(seed, 3, 3) ELSE IF Rnd(seed, 3, 4) = 0 THEN 1 + Rnd(seed, 14, 2) ELSE 0
           pool == IF iso = <<>> \/ Rnd(seed, 15, 3) = 0 THEN ps ELSE iso
           isos == [i \in 1..niso |-> pool[((Rnd(seed, 4, 50) + i) % Len(pool)) + 1]]
           all == own \o isos
           shake == ShakeKind(seed, tris)
           pts0 == TLCEval([i \in DOMAIN all |-> Place(aff, Shaken(seed, shake, all[i]))])
           np == Len(all)
       IN  \E pts \in {pts0} :
       LET
           NodeStyle == IF PROP = "C01" /\ Rnd(seed, 16, 3) = 0 THEN 5 ELSE IF PROP = "C01" /\ Rnd(seed, 16, 3) = 1 THEN 6 ELSE Rnd(seed, 20, Styles)
           a0 == Label(seed, np, idx, NodeStyle, Rnd(seed, 21, Styles), Coin(seed, 22), "any")
       IN  \E a \in {a0} :
       LET
           \* twins
           tk == IF script = <<>> /\ PROP = "C11" THEN Script(seed)[2].kind ELSE "none"
           aidx == [i \in DOMAIN a.e |-> <<a.e[i][2], a.e[i][3], a.e[i][4]>>]
           sd2 == NextSeed(seed)
           keepIds(l) == [l EXCEPT !.n = [i \in DOMAIN @ |-> <<IdOf(a, @[i][2]), @[i][2]>>]]
           t0 == CASE tk = "label" -> [n |-> [i \in 1..np |-> <<Ids(sd2, 300, np, 1 + Rnd(sd2, 30, Styles - 1))[i], a.n[i][2]>>],
                                      e |-> [i \in DOMAIN a.e |-> <<Ids(sd2, 400, Len(idx), 1 + Rnd(sd2, 31, Styles - 1))[i], a.e[i][2], a.e[i][3], a.e[i][4]>>]]
                  [] tk = "order" -> [n |-> Shuffle(sd2, 100, a.n), e |-> Shuffle(sd2, 200, a.e)]
                  [] tk = "turn"  -> [n |-> a.n, e |-> [i \in DOMAIN a.e |->
                                        LET u == Turn(<<a.e[i][2], a.e[i][3], a.e[i][4]>>, Rnd(sd2, 500 + i, 3), Coin(sd2, 600 + i))
                                        IN  <<a.e[i][1], u[1], u[2], u[3]>>]]
                  [] tk \in {"shift", "rot", "none"} -> a
                  [] OTHER -> Label(sd2, np, aidx, Rnd(sd2, 20, Styles), Rnd(sd2, 21, Styles), TRUE, IF Coin(sd2, 23) THEN "any" ELSE "keep")
           rot == IF tk = "rot" \/ (tk = "all" /\ Coin(sd2, 24)) THEN 1 ELSE 0
           unit == RMin(RAbs(aff[1]), RAbs(aff[4]))
           shift == IF tk \in {"shift", "all"} THEN <<RMul(unit, RInt(Rnd(sd2, 25, 40) - 20)), RMul(unit, RDiv(RInt(Rnd(sd2, 26, 400) - 200), "8"))>> ELSE <<"0", "0">>
           mv(p) == IF rot = 0 THEN <<RAdd(p[1], shift[1]), RAdd(p[2], shift[2]), p[3]>>
                    ELSE <<RAdd(RNeg(p[2]), shift[1]), RAdd(p[1], shift[2]), p[3]>>
           \* non-manifold
           ft == IF PROP \in {"C01", "C02", "C13", "C30"} /\ ph = "grow" THEN Fin(tris, seed) ELSE tris
       IN  \E t \in {TLCEval(t0)}, fps \in {TLCEval(SetToSeq(PointsOf(ft)))} :
       LET
           fat(p) == CHOOSE i \in DOMAIN fps : fps[i] = p
       IN  lab' = [seed |-> seed, pts |-> pts,
                   a |-> a,
                   d |-> Label(seed, np, idx, 0, 0, Coin(seed, 24), "any"),
                   i |-> Label(seed, Len(all), idx, NodeStyle, Rnd(seed, 21, Styles), Coin(seed, 22), "any"),
                   id |-> Label(seed, Len(all), idx, 0, 0, TRUE, "any"),
                   t |-> t, tpts |-> [i \in DOMAIN pts |-> mv(pts[i])], rot |-> rot,
                   turned |-> (\E k \in DOMAIN t.e : \A j \in DOMAIN a.e : <<t.e[k][2], t.e[k][3], t.e[k][4]>> # <<a.e[j][2], a.e[j][3], a.e[j][4]>>),
                   f |-> Label(seed, Len(fps), [i \in DOMAIN ft |-> <<fat(ft[i][1]), fat(ft[i][2]), fat(ft[i][3])>>],
                               NodeStyle, Rnd(seed, 21, Styles), TRUE, "any"),
                   fpts |-> [i \in DOMAIN fps |-> Place(aff, Shaken(seed, "no", fps[i]))],
                   pool |-> PoolOf(seed, PoolStyle)]
    /\ script' = Script(seed)
    /\ ph' = "run"
    /\ seed' = NextSeed(seed)
    /\ UNCHANGED <<c, tris, want, s, ops>>

\* the a label of a C11 chain is read through nastran
FixVia(tm) == IF PROP = "C11" /\ tm.t = "read" THEN [tm EXCEPT !.via = "nastran"] ELSE tm

RECURSIVE StepAll(_, _)
StepAll(ss, q) == IF q = <<>> THEN ss
                  ELSE IF ~Valid(ss, Head(q)) THEN Assert(FALSE, <<"generated an invalid operation", c, Head(q)>>)
                  ELSE StepAll(TLCEval(Step(ss, Head(q))), Tail(q))
Run ==
    /\ ph = "run" /\ script # <<>>
    /\ LET q == TLCEval(Expand(FixVia(Head(script)), seed)) IN
       /\ s' = StepAll(s, q)
       /\ ops' = ops \o q
    /\ script' = Tail(script)
    /\ seed' = NextSeed(seed)
    /\ UNCHANGED <<c, ph, tris, want, lab>>

Finish ==
    /\ ph = "run" /\ script = <<>>
    /\ JsonSerialize(OUT \o "/" \o ToString(c) \o ".json", [id |-> c, prop |-> PROP, pool |-> lab.pool, ops |-> ops])
    /\ ph' = "done"
    /\ UNCHANGED <<c, seed, tris, want, lab, s, script, ops>>

Next == Grow \/ LabelMesh \/ Run \/ Finish

TypeOK == ph = "grow" => Len(tris) >= 1
Planarity == ph = "grow" => \A i, j \in DOMAIN tris : i < j => Conform(tris[i], tris[j])
SessionOk == GeoNeedsNumbers(s)
=============================================================================
