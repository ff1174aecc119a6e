------------------------------ MODULE MCStiff ------------------------------
(***************************************************************************)
(* Exhaustive: on every small triangulation (same growth as MCMesh) the    *)
(* formulas of Stiffness have the structure the properties promise.  All   *)
(* arithmetic is exact.                                                    *)
(***************************************************************************)
EXTENDS Planar, Stiffness

CONSTANTS N, MaxTris
Lat == (0..N) \X (0..N)
VARIABLES tris
view == {Corners(tris[i]) : i \in DOMAIN tris}
Init == tris \in {<<t>> : t \in {u \in Lat \X Lat \X Lat : Proper(u) /\ ~Slim(u) /\ u[1] = <<0, 0>>}}
Next == Len(tris) < MaxTris /\ \/ tris' \in Grown(tris, Lat)
                               \/ Len(tris) + 2 <= MaxTris /\ tris' \in Splits(tris, Lat)

Nid(p) == 10 * p[1] + p[2]
MeshOf(ts) == LET ps == PointsOf(ts) IN
     [xyz |-> [v \in {Nid(p) : p \in ps} |-> <<RInt(v \div 10), RInt(v % 10), "0">>],
      elems |-> [i \in DOMAIN ts |-> [eid |-> i, n |-> <<Nid(ts[i][1]), Nid(ts[i][2]), Nid(ts[i][3])>>]]]
OrdOf(m) == [e \in EdgesOf(m.elems) |-> SetToSeq(ElemsOn(m.elems, e))]

(* Two full, positive definite laminates                                   *)
P1 == [A |-> <<<<"7", "1", "1/2">>, <<"1", "5", "-1">>, <<"1/2", "-1", "3">>>>,
       B |-> <<<<"1/2", "0", "1/4">>, <<"0", "-1/2", "1/8">>, <<"1/4", "1/8", "1/4">>>>,
       D |-> <<<<"2", "1/2", "0">>, <<"1/2", "3", "1/4">>, <<"0", "1/4", "1">>>>,
       E |-> <<<<"2", "1/2">>, <<"1/2", "3">>>>, h |-> "1/2", k13 |-> "5/6", k23 |-> "2/3"]
P2 == [A |-> <<<<"3", "-1", "0">>, <<"-1", "4", "1">>, <<"0", "1", "2">>>>,
       B |-> <<<<"0", "1/4", "0">>, <<"1/4", "0", "1/4">>, <<"0", "1/4", "-1/4">>>>,
       D |-> <<<<"1", "0", "1/4">>, <<"0", "2", "0">>, <<"1/4", "0", "1">>>>,
       E |-> <<<<"5", "-1">>, <<"-1", "1">>>>, h |-> "2", k13 |-> "1/2", k23 |-> "1"]
mixed(S) == [v \in S |-> IF v % 2 = 1 THEN P1 ELSE P2]
unif(S)  == [v \in S |-> P1]
ortho    == [P1 EXCEPT !.E = <<<<"2", "0">>, <<"0", "3">>>>]
uniO(S)  == [v \in S |-> ortho]

Field(m, F(_)) == [v \in NodeIds(m) |-> F(m.xyz[v])]
Force(K, d) == [a \in DOMAIN K |->
    [p \in Dofs |-> RSum(FlattenSeq([j \in DOMAIN SetToSeq(DOMAIN K) |->
        LET b == SetToSeq(DOMAIN K)[j] IN [q \in Dofs |-> RMul(K[a][b][p][q], d[b][q])]]))]]
Null(K, d) == \A a \in DOMAIN K : \A p \in Dofs : Force(K, d)[a][p] = "0"
Symm(K) == \A a, b \in DOMAIN K : \A p, q \in Dofs : K[a][b][p][q] = K[b][a][q][p]

Z == "0"
uT(x) == <<"1", Z, Z, Z, Z>>          vT(x) == <<Z, "1", Z, Z, Z>>
rT(x) == <<RNeg(x[2]), x[1], Z, Z, Z>>  wT(x) == <<Z, Z, "1", Z, Z>>
pxT(x) == <<Z, Z, Z, "1", Z>>         pyT(x) == <<Z, Z, Z, Z, "1">>
prT(x) == <<Z, Z, Z, RNeg(x[2]), x[1]>>
tiltx(x) == <<Z, Z, x[1], "-1", Z>>   tilty(x) == <<Z, Z, x[2], Z, "-1">>
lin(x) == <<RAdd("1", RAdd(RMul("2", x[1]), RMul("-3", x[2]))), RAdd(x[1], RMul("1/2", x[2])), Z,
            RAdd(RMul("-1", x[1]), RMul("4", x[2])), RAdd("2", RAdd(RMul("3", x[1]), x[2]))>>
rnd(x) == <<RSq(x[1]), RAdd(x[2], RMul(x[1], x[2])), RSub(RSq(x[2]), x[1]), RMul(x[1], x[2]), RSub("1", RSq(x[1]))>>

TestFields(m) == {Field(m, uT), Field(m, rT), Field(m, lin), Field(m, rnd)}

K0Structure ==
    LET m == MeshOf(tris)  o == OrdOf(m)
        np == mixed(NodeIds(m))  ep == mixed(Eids(m))
    IN \A pfn \in BOOLEAN :
       LET K == MatrixK0(m, np, ep, pfn, o) IN
       /\ Symm(K)
       /\ Null(K, Field(m, uT)) /\ Null(K, Field(m, vT)) /\ Null(K, Field(m, rT))
       /\ Null(K, Field(m, wT)) /\ Null(K, Field(m, pxT)) /\ Null(K, Field(m, pyT)) /\ Null(K, Field(m, prT))
       /\ RSign(Energy(K, Field(m, rnd))) >= 0
Patch ==
    LET m == MeshOf(tris)  o == OrdOf(m)
        K == MatrixK0(m, unif(NodeIds(m)), unif(Eids(m)), TRUE, o)
        f == Force(K, Field(m, lin))
        e == <<"2", "1/2", "-2">>  k == <<"-1", "1", "7">>
        c == RAdd(RQuad(e, P1.A, e), RAdd(RMul("2", RQuad(e, P1.B, k)), RQuad(k, P1.D, k)))
    IN /\ \A v \in InnerNodes(m) : \A p \in Dofs : f[v][p] = "0"
       /\ Energy(K, Field(m, lin)) = RMul(TotalArea(m), c)
       /\ K = MatrixK0(m, unif(NodeIds(m)), unif(Eids(m)), FALSE, o)
ShearStructure ==
    LET m == MeshOf(tris)  o == OrdOf(m)
        np == mixed(NodeIds(m))  ep == mixed(Eids(m))
        cs(x) == <<Z, Z, RAdd("3", RAdd(RMul("2", x[1]), RMul("-1", x[2]))), "1/2", "4">>
    IN \A method \in Methods : \A pfn \in BOOLEAN :
       LET K == MatrixK0s(m, np, ep, pfn, o, method, "1/4", pfn, FALSE)
           K1 == MatrixK0s(m, uniO(NodeIds(m)), uniO(Eids(m)), pfn, o, method, "0", pfn, FALSE)
       IN /\ Symm(K)
          /\ Null(K, Field(m, uT)) /\ Null(K, Field(m, rT)) /\ Null(K, Field(m, wT))
          /\ Null(K, Field(m, tiltx)) /\ Null(K, Field(m, tilty))
          /\ RSign(Energy(K, Field(m, rnd))) >= 0
          /\ Energy(K1, Field(m, cs)) =
                RMul(TotalArea(m), RAdd(RMul(RMul("5/6", "3"), RSq("5/2")), RMul(RMul("2/3", "2"), RSq("3"))))
KGStructure ==
    LET m == MeshOf(tris)  o == OrdOf(m)
        np == mixed(NodeIds(m))  ep == mixed(Eids(m))
        G(d) == MatrixKG(m, np, ep, TRUE, o, d)
        dl == Field(m, lin)  dr == Field(m, rnd)
        dsum == [v \in NodeIds(m) |-> [p \in Dofs |-> RAdd(RMul("2", dl[v][p]), dr[v][p])]]
    IN /\ Symm(G(dr)) /\ Null(G(dr), Field(m, wT))
       /\ G(Field(m, rT)) = ZeroMat(NodeIds(m))
       /\ G(dsum) = Plus(Plus(G(dl), G(dl)), G(dr))
(* The order of the triangles on an edge and the orientation of triangles  *)
(* do not matter, except for the unsmoothed method                         *)
Indifferent ==
    LET m == MeshOf(tris)  o == OrdOf(m)
        m2 == [m EXCEPT !.elems = [i \in DOMAIN @ |-> [@[i] EXCEPT !.n = <<@[2], @[1], @[3]>>]]]
        o2 == [e \in DOMAIN o |-> Reverse(o[e])]
        np == mixed(NodeIds(m))  ep == mixed(Eids(m))
        d == Field(m, rnd)
    IN \A pfn \in BOOLEAN :
       /\ MatrixK0(m, np, ep, pfn, o) = MatrixK0(m2, np, ep, pfn, o2)
       /\ MatrixKG(m, np, ep, pfn, o, d) = MatrixKG(m2, np, ep, pfn, o2, d)
       /\ MatrixK0s(m, np, ep, pfn, o, "cell-based", "1/8", pfn, FALSE)
            = MatrixK0s(m2, np, ep, pfn, o2, "cell-based", "1/8", pfn, FALSE)
=============================================================================
