------------------------------ MODULE GenMisc ------------------------------
(***************************************************************************)
(* Generates calls of the stateless helpers: interpolation (C22, C23),     *)
(* polygon areas and unit vectors (C29), log messages (C30).               *)
(***************************************************************************)
EXTENDS Lagrange, Polygon, Rng, IOUtils, Json

PROP   == IOEnv.PROP
SEED0  == atoi(IOEnv.SEED)
FIRST  == atoi(IOEnv.FIRST)
CHAINS == atoi(IOEnv.CHAINS)
OUT    == IOEnv.OUT

VARIABLES c, seed, n, poly, tris, ops
vars == <<c, seed, n, poly, tris, ops>>

Lat == (0..5) \X (0..5)
Denoms == <<"1", "2", "4", "5", "10", "8">>
Val(sd, j) == RDiv(RInt(Rnd(sd, j, 61) - 30), PickSeq(sd, j + 1, Denoms))
(* units of a direction, of a field: some results are very small or large   *)
Units == <<"1", "1", "1", "0.0000001", "1000000", "0.001">>
Unit(sd, j) == PickSeq(sd, j, Units)
(* coordinates far from zero for their distance, all exact in binary        *)
Far(sd, j) == PickSeq(sd, j + 9, <<"0", "0", "0", "0", "0", "0", "65536", "-1073741824">>)
(* k distinct coordinates, sorted, reversed or in any order                *)
Coords(sd, j, k) ==
    LET step == PickSeq(sd, j, <<"1", "0.5", "0.1", "2", "0.25">>)
        off == RInt(Rnd(sd, j + 1, 11) - 5)
        base == SubSeq(Shuffle(sd, j + 2, <<0, 1, 2, 3, 4, 6, 9>>), 1, k)
        far == Far(sd, j)
    IN  IF far # "0" THEN [i \in 1..k |-> RAdd(far, RMul(IF step = "0.1" THEN "0.5" ELSE step, RInt(base[i])))]
        ELSE [i \in 1..k |-> RMul(Unit(sd, j + 7), RAdd(off, RMul(step, RInt(base[i]))))]
Field2(sd, j, a, b) == [p \in 1..a |-> [q \in 1..b |-> RMul(Unit(sd, j), Val(sd, j + 40 * p + 4 * q))]]
Field3(sd, j, a, b, d) == [p \in 1..a |-> [q \in 1..b |-> [r \in 1..d |-> RMul(Unit(sd, j), Val(sd, j + 200 * p + 40 * q + 4 * r))]]]
Perm(sd, j, k) == Shuffle(sd, j, [i \in 1..k |-> i])
(* evaluation points: arbitrary, on the control grid, one control coordinate, or very near to one *)
PtCoord(sd, j, xs, k) ==         \* k: seed of the control coordinates
    LET r == Rnd(sd, j, 12)  xi == PickSeq(sd, j + 1, xs)  u == Unit(sd, k + 7) IN
    CASE r < 4 -> xi
      [] r = 4 /\ Far(sd, k) # "0" -> RAdd(xi, PickSeq(sd, j + 2, <<"1/1048576", "-1/262144">>))
      [] Far(sd, k) # "0" -> RAdd(xs[1], RDiv(RInt(Rnd(sd, j + 1, 61) - 30), "8"))
      [] r = 4 -> RAdd(xi, RMul(u, PickSeq(sd, j + 2, <<"0.000001", "-0.0000003", "0.00005", "-0.000002">>)))
      [] OTHER -> RMul(u, Val(sd, j + 1))
Forms == <<"array", "list", "int", "scalar", "scalar", "grid", "many">>
Dim(sd, j) == 1 + (IF Rnd(sd, j, 9) = 0 THEN 4 + Rnd(sd, j + 1, 3) ELSE Rnd(sd, j, 4))

Ops22(sd) ==
    LET a == Dim(sd, 1)  b == IF Rnd(sd, 6, 3) = 0 THEN a ELSE Dim(sd, 2)  k == 1 + Rnd(sd, 3, 5)
        xs == Coords(sd, 10, a)
        alike == a = b /\ Rnd(sd, 7, 3) = 0        \* the same control coordinates in both directions
        ys == IF alike THEN xs ELSE Coords(sd, 30, b)
        F == Field2(sd, 100, a, b)
        pa == Perm(sd, 50, a)  pb == Perm(sd, 60, b)
        x == [i \in 1..k |-> PtCoord(sd, 400 + 5 * i, xs, 10)]
        y == [i \in 1..k |-> IF alike /\ Coin(sd, 640 + i) THEN (IF Coin(sd, 660 + i) THEN x[i] ELSE RNeg(x[i]))
                              ELSE PtCoord(sd, 440 + 5 * i, ys, IF alike THEN 10 ELSE 30)]
        op(f, u, v, H) == [op |-> "l2", form |-> f, x |-> x, y |-> y, xn |-> u, yn |-> v, F |-> H]
        bad == PickSeq(sd, 70, <<"rows", "cols", "ndim1", "ndim3", "swap">>)
    IN  << op("array", xs, ys, F),
           [op(PickSeq(sd, 71, Forms), xs, ys, Field2(sd, 150, a, b)) EXCEPT        \* the same control points, other points
              !.x = IF Coin(sd, 73) THEN Reverse(x) ELSE y],
           op(PickSeq(sd, 72, Forms), [i \in 1..a |-> xs[pa[i]]], [i \in 1..b |-> ys[pb[i]]],
              [i \in 1..a |-> [j \in 1..b |-> F[pa[i]][pb[j]]]]),
           [op("array", xs, ys, CASE bad = "rows" -> Field2(sd, 100, a + 1, b) [] bad = "cols" -> Field2(sd, 100, a, b + 1)
                                  [] bad = "swap" /\ a # b -> Field2(sd, 100, b, a) [] bad = "swap" -> Field2(sd, 100, a + 1, b + 1)
                                  [] OTHER -> F) EXCEPT !.op = "l2bad"] @@ [bad |-> bad] >>
Ops23(sd) ==
    LET a == Dim(sd, 1)  b == Dim(sd, 2)  d == IF Coin(sd, 4) THEN b ELSE Dim(sd, 5)  k == 1 + Rnd(sd, 3, 4)
        xs == Coords(sd, 10, a)  ys == Coords(sd, 30, b)
        zs == IF d = b /\ Coin(sd, 6) THEN ys ELSE Coords(sd, 80, d)
        F == Field3(sd, 100, a, b, d)
        pa == Perm(sd, 50, a)
        x == [i \in 1..k |-> PtCoord(sd, 1400 + 5 * i, xs, 10)]
        y == [i \in 1..k |-> PtCoord(sd, 1440 + 5 * i, ys, 30)]
        z == [i \in 1..k |-> PtCoord(sd, 1480 + 5 * i, zs, IF zs = ys THEN 30 ELSE 80)]
        op(f, u, H) == [op |-> "l3", form |-> f, x |-> x, y |-> y, z |-> z, xn |-> u, yn |-> ys, zn |-> zs, F |-> H]
        bad == PickSeq(sd, 70, <<"one", "two", "three", "ndim2", "ndim4">>)
    IN  << op("array", xs, F),
           op(PickSeq(sd, 71, Forms), xs, Field3(sd, 1150, a, b, d)),
           op(PickSeq(sd, 72, Forms), [i \in 1..a |-> xs[pa[i]]], [i \in 1..a |-> F[pa[i]]]),
           [op("array", xs, CASE bad = "one" -> Field3(sd, 100, a + 1, b, d) [] bad = "two" -> Field3(sd, 100, a, b + 1, d)
                              [] bad = "three" -> Field3(sd, 100, a, b, d + 1) [] OTHER -> F)
              EXCEPT !.op = "l3bad"] @@ [bad |-> bad] >>

Affs == << <<"1", "0", "0", "1", "0", "0">>, <<"0.25", "0", "0", "0.25", "-0.5", "0.125">>,
           <<"0.1", "0.02", "-0.03", "0.15", "0.3", "-0.7">>, <<"100", "0", "25", "75", "-40", "1000">>,
           <<"-0.6", "0.8", "0.8", "0.6", "-2", "3">>, <<"0.00001", "0", "0", "0.00002", "0.00003", "0">>,
           <<"0.000001", "0", "0", "0.000001", "0", "0">>, <<"3000000", "1000000", "0", "2000000", "0", "0">>,
           <<"2", "1", "-1", "3", "5", "-7">> >>
Place(a, p) == <<RAdd(a[5], RAdd(RMul(a[1], RInt(p[1])), RMul(a[2], RInt(p[2])))),
                 RAdd(a[6], RAdd(RMul(a[3], RInt(p[1])), RMul(a[4], RInt(p[2]))))>>
(* an element of any kind and its node positions                           *)
Kinds == << <<"CTRIA3", 3>>, <<"CQUAD4", 4>>, <<"CROD", 2>>, <<"CTETRA", 4>>, <<"CHEXA", 8>>, <<"CBAR", 2>>, <<"CTRIA3", 3>> >>
Elem(sd) ==
    LET k == PickSeq(sd, 90, Kinds)  u == PickSeq(sd, 91, <<"1", "1", "0.00001", "1000">>) IN
    [op |-> "centroid", el |-> k[1], pts |-> [i \in 1..k[2] |-> [j \in 1..3 |-> RMul(u, RAdd(Val(sd, 92 + 3 * i + j), RInt(i * j)))]],
     moved |-> Coin(sd, 93), by |-> [j \in 1..3 |-> RMul(u, Val(sd, 130 + j))]]
Ops29(sd) ==
    LET a == PickSeq(sd, 1, Affs)
        det == RAbs(RSub(RMul(a[1], a[4]), RMul(a[2], a[3])))
        area == RMul(RMul("1/2", det), RInt(TwiceArea(tris)))
        k == Rnd(sd, 2, Len(poly))
        q == [i \in DOMAIN poly |-> Place(a, poly[((i + k - 1) % Len(poly)) + 1])]
        r == IF Coin(sd, 3) THEN Reverse(q) ELSE q
        shift == <<RMul(a[1], RInt(Rnd(sd, 4, 200) - 100)), RMul(a[1], RDiv(RInt(Rnd(sd, 5, 200) - 100), "4"))>>
        op(pts, f) == [op |-> "area", form |-> f, x |-> [i \in DOMAIN pts |-> pts[i][1]], y |-> [i \in DOMAIN pts |-> pts[i][2]],
                       area |-> area]
        vec(j) == LET m == 2 + Rnd(sd, j, 3)
                      u == PickSeq(sd, j + 2, <<"1", "1", "0.000000001", "1000000000", "0.0001">>)
                      v == [i \in 1..m |-> IF Rnd(sd, j + 5 + 10 * i, 4) = 0 THEN "0" ELSE RMul(u, Val(sd, j + 10 * i))]
                  IN  [op |-> "unit", v |-> IF \A i \in 1..m : v[i] = "0" THEN [v EXCEPT ![1] = u] ELSE v,
                       form |-> PickSeq(sd, j + 1, <<"float", "int", "float">>)]
    IN  << op(q, "array"), op(r, PickSeq(sd, 6, <<"array", "list", "int", "tuple">>)),
           op([i \in DOMAIN r |-> <<RAdd(r[i][1], shift[1]), RAdd(r[i][2], shift[2])>>], "array"),
           op(r \o <<r[1]>>, PickSeq(sd, 7, <<"array", "list", "tuple">>)),     \* closed
           vec(20), vec(70), Elem(sd) >>

Texts == << "Reading mesh...", "finished!", "", "100% {0} %s %d", "a b  c", "WARNING: nested", "x=1,y=2", "tab\there",
            "two\nlines", "'quoted' and \"quoted\"", "  leading", "trailing ", "WARNING: ", "{}", "ERROR" >>
Ops30(sd) == [i \in 1..5 |-> [op |-> "log", fn |-> PickSeq(sd, 10 * i, <<"msg", "warn", "error">>),
                              text |-> PickSeq(sd, 10 * i + 1, Texts), level |-> PickSeq(sd, 10 * i + 2, <<0, 0, 1, 2, 3, 7>>),
                              silent |-> Coin(sd, 10 * i + 3), dflt |-> PickSeq(sd, 10 * i + 4, <<"all", "all", "level", "silent", "both">>)]]

PropSalt == CHOOSE i \in 0..99 : PROP = "C" \o (IF i < 10 THEN "0" ELSE "") \o ToString(i)
ChainSeed(k) == LET a == (SEED0 % 1000) * 131 + k * 977 + PropSalt * 31 IN NextSeed(NextSeed(a % SeedMod))

Init == /\ c \in FIRST..(FIRST + CHAINS - 1)
        /\ seed = ChainSeed(c)
        /\ n = Rnd(seed, 1, 9)
        /\ LET ts == SelectSeq(SetToSeq({<<<<2, 2>>, a, b>> : a \in (1..4) \X (1..4), b \in (1..4) \X (1..4)}), LAMBDA t : Proper(t))
               t == PickSeq(seed, 2, ts)
           IN  poly = <<t[1], t[2], t[3]>> /\ tris = <<t>>
        /\ ops = <<>>
GrowPoly ==
    /\ ops = <<>> /\ PROP = "C29" /\ n > 0
    /\ LET e == SetToSeq(Ears(poly, tris, Lat)) IN
       IF e = <<>> THEN UNCHANGED <<poly, tris>>
       ELSE LET g == Grow(poly, tris, PickSeq(seed, 3, e)) IN poly' = g.poly /\ tris' = g.tris
    /\ n' = n - 1 /\ seed' = NextSeed(seed) /\ UNCHANGED <<c, ops>>
Finish ==
    /\ ops = <<>> /\ (PROP # "C29" \/ n = 0)
    /\ ops' = TLCEval(CASE PROP = "C22" -> Ops22(seed) [] PROP = "C23" -> Ops23(seed)
                        [] PROP = "C29" -> Ops29(seed) [] PROP = "C30" -> Ops30(seed))
    /\ JsonSerialize(OUT \o "/" \o ToString(c) \o ".json", [id |-> c, prop |-> PROP, ops |-> ops'])
    /\ UNCHANGED <<c, seed, n, poly, tris>>
Next == GrowPoly \/ Finish
=============================================================================
