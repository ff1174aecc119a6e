------------------------------- MODULE MCMesh -------------------------------
(***************************************************************************)
(* Exhaustive: every conforming triangulation with at most MaxTris         *)
(* triangles reachable by growth on a small lattice.  Invariants are the   *)
(* theorems about the discretisation that the properties rely on.          *)
(***************************************************************************)
EXTENDS Planar, Domains

CONSTANTS N, MaxTris, Mode

Lat == (0..N) \X (0..N)
VARIABLES tris        \* sequence of triangles, in the order they were added
\* equal sets of triangles are one state
view == {Corners(tris[i]) : i \in DOMAIN tris}

Init == tris \in {<<t>> : t \in {u \in Lat \X Lat \X Lat :
                     Proper(u) /\ ~Slim(u) /\ u[1] = <<0, 0>>}}
Next == Len(tris) < MaxTris /\ \/ tris' \in Grown(tris, Lat)
                               \/ Len(tris) + 2 <= MaxTris /\ tris' \in Splits(tris, Lat)

\* the mesh of a state, lattice point (i, j) being node 10 i + j
Nid(p) == 10 * p[1] + p[2]
M == LET ps == PointsOf(tris) IN
     [xyz |-> [v \in {Nid(p) : p \in ps} |-> <<RInt(v \div 10), RInt(v % 10), "0">>],
      elems |-> [i \in DOMAIN tris |-> [eid |-> i, n |-> <<Nid(tris[i][1]), Nid(tris[i][2]), Nid(tris[i][3])>>]]]
Ords == LET es == EdgesOf(M.elems) IN
        [e \in es |-> SetToSeq(ElemsOn(M.elems, e))]

GrowthConforms == Conforming(tris)
IsManifold     == Manifold(M.elems) /\ NonDegenerate(M)
(* Euler: with b boundary sides and t triangles, 3 t = b + 2 inner sides   *)
CountSides     == 3 * Len(tris) = Cardinality(EdgesOf(M.elems)) * 2 - Cardinality(Boundary(M.elems))

AreasTile == LET es == SetToSeq(DOMAIN Ords) IN
             RSum([i \in DOMAIN es |-> DomainArea(M, Ords[es[i]])]) = TotalArea(M)
DomainsClosed == \A e \in DOMAIN Ords :
    LET s == Segments(M, e, Ords[e]) IN Closed(s) /\ SweptArea(s) = DomainArea(M, Ords[e])
(* outward: every segment sees the domain's end nodes and centroids on its left *)
Outward == \A e \in DOMAIN Ords :
    LET s == Segments(M, e, Ords[e])
        c == LET a == CHOOSE v \in e : TRUE  b == CHOOSE v \in e : v # a
             IN VLin("1/2", At(M, a), "1/2", At(M, b))
        ms == [i \in DOMAIN Ords[e] |-> ElemMid(M, ElemById(M, Ords[e][i]))]
        \* centroid of the kite / triangle lies inside
        inner == IF Len(ms) = 1 THEN VLin("2/3", c, "1/3", ms[1])
                 ELSE VLin("1/2", VLin("2/3", c, "1/3", ms[1]), "1/2", VLin("2/3", c, "1/3", ms[2]))
    IN  \A i \in DOMAIN s : s[i].elem = Ords[e][1] =>
            RSign(Dot2(s[i].s, Vec(VLin("2/3", c, "1/3", ms[1]), s[i].pt))) = 1
LinearFieldsReproduced == \A e \in DOMAIN Ords :
    LET s == Segments(M, e, Ords[e]) IN
    \A i \in DOMAIN s :
        LET vs == SetToSeq(DOMAIN s[i].f)
            w == [k \in DOMAIN vs |-> s[i].f[vs[k]]]
        IN  /\ RSum(w) = "1"
            /\ \A k \in DOMAIN w : RSign(w[k]) >= 0
            /\ RDot(w, [k \in DOMAIN vs |-> At(M, vs[k])[1]]) = s[i].pt[1]
            /\ RDot(w, [k \in DOMAIN vs |-> At(M, vs[k])[2]]) = s[i].pt[2]
SmoothingIsMean == \A e \in DOMAIN Ords :
    LET s == Segments(M, e, Ords[e])  Ac == DomainArea(M, Ords[e]) IN
    \A k \in Support(M, e, Ords[e]) : SmoothGrad(s, Ac, k) = MeanGrad(M, Ords[e], k)
(* orientation choice and triangle order do not matter                     *)
OrderFree == \A e \in DOMAIN Ords : Len(Ords[e]) = 2 =>
    LET o == Ords[e]  r == <<o[2], o[1]>> IN
    \A k \in Support(M, e, o) :
        SmoothGrad(Segments(M, e, o), DomainArea(M, o), k) = SmoothGrad(Segments(M, e, r), DomainArea(M, r), k)
=============================================================================
