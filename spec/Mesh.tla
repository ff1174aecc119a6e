-------------------------------- MODULE Mesh --------------------------------
(***************************************************************************)
(* Triangular meshes: topology (who touches whom) and plane geometry.      *)
(*                                                                         *)
(* A mesh is a record m with                                               *)
(*   m.xyz   : [node id -> <<x, y, z>>]            (rationals)             *)
(*   m.elems : sequence of [eid |-> Int, n |-> <<a, b, c>>]                *)
(* Node ids and element ids are arbitrary integers.  An edge is the set    *)
(* {a, b} of its two end nodes.                                            *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, SequencesExt


-----------------------------------------------------------------------------
(* Topology                                                                *)

Verts(el)      == {el.n[1], el.n[2], el.n[3]}
ElemEdges(el)  == {{el.n[1], el.n[2]}, {el.n[2], el.n[3]}, {el.n[3], el.n[1]}}
NodeIds(m)     == DOMAIN m.xyz
Eids(m)        == {m.elems[i].eid : i \in DOMAIN m.elems}
ElemById(m, t) == m.elems[CHOOSE i \in DOMAIN m.elems : m.elems[i].eid = t]
EdgesOf(elems) == UNION {ElemEdges(elems[i]) : i \in DOMAIN elems}
ElemsOn(elems, e) == {elems[i].eid : i \in {j \in DOMAIN elems : e \in ElemEdges(elems[j])}}
ElemsAt(elems, v) == {elems[i].eid : i \in {j \in DOMAIN elems : v \in Verts(elems[j])}}
EdgesAt(elems, v) == {e \in EdgesOf(elems) : v \in e}
Boundary(elems)   == {e \in EdgesOf(elems) : Cardinality(ElemsOn(elems, e)) = 1}
Manifold(elems)   == \A e \in EdgesOf(elems) : Cardinality(ElemsOn(elems, e)) \in {1, 2}
InnerNodes(m)     == {v \in NodeIds(m) : /\ EdgesAt(m.elems, v) # {}
                                         /\ \A e \in EdgesAt(m.elems, v) :
                                              Cardinality(ElemsOn(m.elems, e)) = 2}

(* The node of triangle el opposite to its edge e                          *)
Apex(el, e) == CHOOSE v \in Verts(el) : v \notin e

-----------------------------------------------------------------------------
(* Plane geometry                                                          *)

X(p) == p[1]
Y(p) == p[2]
Vec(p, q)   == <<RSub(q[1], p[1]), RSub(q[2], p[2])>>
VLin(a, p, b, q) == <<RAdd(RMul(a, p[1]), RMul(b, q[1])), RAdd(RMul(a, p[2]), RMul(b, q[2]))>>
Cross(u, v) == RSub(RMul(u[1], v[2]), RMul(u[2], v[1]))
Dot2(u, v)  == RAdd(RMul(u[1], v[1]), RMul(u[2], v[2]))
Len2(u)     == Dot2(u, u)
Orient(p, q, r) == RSign(Cross(Vec(p, q), Vec(p, r)))
TriArea(p, q, r) == RAbs(RMul("1/2", Cross(Vec(p, q), Vec(p, r))))
Centroid(p, q, r) == [k \in 1..3 |-> RMul("1/3", RAdd(RAdd(p[k], q[k]), r[k]))]

At(m, v)      == m.xyz[v]
ElemArea(m, el) == TriArea(At(m, el.n[1]), At(m, el.n[2]), At(m, el.n[3]))
ElemMid(m, el)  == Centroid(At(m, el.n[1]), At(m, el.n[2]), At(m, el.n[3]))
TotalArea(m)  == RSum([i \in DOMAIN m.elems |-> ElemArea(m, m.elems[i])])

NonDegenerate(m) == \A i \in DOMAIN m.elems : RSign(ElemArea(m, m.elems[i])) = 1

(* Constant gradient of the linear shape function of node v on triangle el *)
ShapeGrad(m, el, v) ==
    LET i == CHOOSE k \in 1..3 : el.n[k] = v
        p == At(m, el.n[(i % 3) + 1])
        q == At(m, el.n[((i + 1) % 3) + 1])
        w == Cross(Vec(At(m, v), p), Vec(At(m, v), q))
    IN  <<RDiv(RSub(p[2], q[2]), w), RDiv(RSub(q[1], p[1]), w)>>

(* The shoelace area of a closed polygon given by coordinate sequences     *)
Shoelace(xs, ys) ==
    LET n == Len(xs)
        nx(i) == IF i = n THEN 1 ELSE i + 1
        s == [i \in 1..n |-> RSub(RMul(xs[i], ys[nx(i)]), RMul(xs[nx(i)], ys[i]))]
    IN  RAbs(RMul("1/2", RSum(s)))
=============================================================================
