----------------------------- MODULE TraceEspim -----------------------------
(***************************************************************************)
(* Checks recorded executions of the library against Session, Mesh,        *)
(* Domains and Stiffness.                                                  *)
(*                                                                         *)
(* Every line of the file TRACE is one execution: the operations that were *)
(* performed and, with each, what was observed (obs).  A step of this      *)
(* specification consumes one operation: the observed answer must be the   *)
(* Outcome of Session, the abstract session takes its Step, and the        *)
(* clauses of property PROP are evaluated on the observation against the   *)
(* matrices and meshes that the abstract session calls for.                *)
(*                                                                         *)
(* Verdicts are total: a clause that does not hold is printed as           *)
(*   FAIL|<execution>|<operation>|<clause>   (KNOWN| for recorded findings) *)
(* and the rest of the execution is still checked.  An operation with the  *)
(* wrong outcome ends the checking of its execution (dead).                *)
(***************************************************************************)
EXTENDS Session, Stiffness, IOUtils, Json

PROP   == IOEnv.PROP
Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t,      \* which execution
          l,      \* next operation
          s,      \* abstract session
          at,     \* matrix handle -> what is remembered of the computation that last wrote it
          dead    \* an outcome was wrong: the rest is not comparable
vars == <<t, l, s, at, dead>>

Ops(k)  == Traces[k].ops
Op      == Ops(t)[l]
Obs     == Op.obs
Pool    == [nm \in {Traces[t].pool[i].name : i \in DOMAIN Traces[t].pool} |->
              LET i == CHOOSE j \in DOMAIN Traces[t].pool : Traces[t].pool[j].name = nm IN Traces[t].pool[i]]

TolX == "1/1000000000"
(* A mesh far from the origin for its size: differences of coordinates are  *)
(* exact, but areas and products of coordinates are legitimately rounded    *)
FarRead(op) ==
    LET x == [i \in DOMAIN op.xyz |-> op.xyz[i][2]]  m == RMaxSeq(x)  n == RMaxSeq([i \in DOMAIN x |-> RNeg(x[i])])
    IN  RLe(RMul("3000", RAdd(m, n)), RMax(RAbs(m), RAbs(n)))
FarNodes(q) == \E i \in DOMAIN q : q[i].op = "read" /\ FarRead(q[i])
Far == [k \in DOMAIN Traces |-> FarNodes(Traces[k].ops)]
Tol  == IF Far[t] THEN "1/10000" ELSE TolX
Tol2 == IF Far[t] THEN "1/100000000" ELSE "1/1000000000000000000"
Eps  == "1/100000000000000"       \* rounding of a sum with a larger number

-----------------------------------------------------------------------------
(* Clauses: a clause that holds contributes nothing                        *)

Must(name, ok)   == IF ok THEN {} ELSE {<<"FAIL", name>>}
Known(name, key, ok, asis) == IF ok THEN {} ELSE IF asis THEN {<<"KNOWN", key>>} ELSE {<<"FAIL", name>>}
SetOf(q) == {q[i] : i \in DOMAIN q}
OnceEach(q, S) == SetOf(q) = S /\ Len(q) = Cardinality(S)
Near3(p, q, tol) == \A k \in 1..3 : RNear(p[k], q[k], tol)

(* what is no concern of the property: its failure ends the execution without a verdict *)
Aside(op) == PROP \in {"C01", "C02", "C03", "C29"} /\ op.op \notin {"read", "mids"}

-----------------------------------------------------------------------------
(* C01, C02, C03: what readers return                                      *)

SidePairs(v)  == [i \in DOMAIN v |-> SetOf(v[i])]
ReadClauses(op, obs, ob) ==
    LET v == obs.view
        el == ob.elems
        edgeSets == [i \in DOMAIN v.edges |-> SetOf(v.edges[i].n)]
        node(i) == v.nodes[i]
        tri(i) == v.elems[i]
        right(i) == {k \in DOMAIN el : el[k].eid = tri(i).id}
    IN
    CASE PROP = "C01" ->
         Must("edges are the sides of the triangles, each once", OnceEach(edgeSets, EdgesOf(el))) \cup
         Must("edges name their two end nodes", \A i \in DOMAIN v.edges :
                /\ Len(v.edges[i].n) = 2 /\ SetOf(v.edges[i].n12) = edgeSets[i] /\ OnceEach(v.edges[i].ids, edgeSets[i])) \cup
         Must("edges list the triangles on them, each once", \A i \in DOMAIN v.edges :
                OnceEach(v.edges[i].t, ElemsOn(el, edgeSets[i])))
      [] PROP = "C02" ->
         Must("nodes know their triangles", \A i \in DOMAIN v.nodes : OnceEach(node(i).t, ElemsAt(el, node(i).id))) \cup
         Must("nodes know their edges", \A i \in DOMAIN v.nodes : OnceEach(SidePairs(node(i).e), EdgesAt(el, node(i).id))) \cup
         Must("triangles know their edges", \A i \in DOMAIN v.elems : \A k \in right(i) :
                OnceEach(SidePairs(tri(i).e), ElemEdges(el[k]))) \cup
         Must("triangles know their corners in order", \A i \in DOMAIN v.elems : \A k \in right(i) : tri(i).n = el[k].n /\ tri(i).nid = el[k].n) \cup
         Must("edges know their triangles", \A i \in DOMAIN v.edges : SetOf(v.edges[i].t) = ElemsOn(el, edgeSets[i])) \cup
         Must("references denote the shared objects", /\ \A i \in DOMAIN v.nodes : node(i).own /\ node(i).eown
                                                      /\ \A i \in DOMAIN v.elems : tri(i).own /\ tri(i).eown
                                                      /\ \A i \in DOMAIN v.edges : v.edges[i].own) \cup
         Must("no object is shared with another mesh", ~v.leak) \cup
         Must("no properties yet", (\A i \in DOMAIN v.nodes : node(i).noprop) /\ \A i \in DOMAIN v.elems : tri(i).noprop)
      [] PROP = "C03" ->
         Must("node ids", OnceEach([i \in DOMAIN v.nodes |-> node(i).id], DOMAIN ob.xyz) /\ \A i \in DOMAIN v.nodes : node(i).own) \cup
         Must("node positions", \A i \in DOMAIN v.nodes : node(i).id \in DOMAIN ob.xyz =>
                LET p == ob.xyz[node(i).id]
                    tol == RMul(TolX, RAdd(IF "cp" \in DOMAIN op /\ op.cp # 0 THEN "1/100" ELSE "0", RAdd(RAbs(p[1]), RAdd(RAbs(p[2]), RAbs(p[3])))))
                IN  node(i).len = 3 /\ Near3(node(i).xyz, p, tol) /\ Near3(node(i).pos, p, tol)) \cup
         Must("triangle ids", OnceEach([i \in DOMAIN v.elems |-> tri(i).id], {el[k].eid : k \in DOMAIN el})) \cup
         Must("triangle corners", \A i \in DOMAIN v.elems : \A k \in right(i) : tri(i).n = el[k].n /\ tri(i).nid = el[k].n) \cup
         Must("input data untouched", obs.pure)
      [] OTHER -> {}

-----------------------------------------------------------------------------
(* C29: centroids of triangles, midpoints of edges, of the current nodes   *)

MeanOf(ps) == [k \in 1..3 |-> RDiv(RSum([i \in DOMAIN ps |-> ps[i][k]]), RInt(Len(ps)))]
MidClauses(obs, ob) ==
    LET xyz(v) == ob.xyz[v]
        all == [i \in 1..Cardinality(DOMAIN ob.xyz) |-> xyz(SetToSeq(DOMAIN ob.xyz)[i])]
        tol == RMul(TolX, RMaxSeq(<<"0">> \o FlattenSeq([i \in DOMAIN all |-> [k \in 1..3 |-> RAbs(all[i][k])]])))
        ok(m, ps) == Len(m) = 3 /\ Near3(m, MeanOf(ps), tol)
    IN  Must("one centroid per triangle", OnceEach([i \in DOMAIN obs.el |-> obs.el[i].id], DOMAIN ob.ep)) \cup
        Must("centroid of a triangle", \A i \in DOMAIN obs.el : \A k \in DOMAIN ob.elems :
                ob.elems[k].eid = obs.el[i].id => ok(obs.el[i].m, [j \in 1..3 |-> xyz(ob.elems[k].n[j])])) \cup
        Must("middle of an edge", \A i \in DOMAIN obs.ed : ok(obs.ed[i].m, [j \in DOMAIN obs.ed[i].n |-> xyz(obs.ed[i].n[j])])) \cup
        Must("inputs untouched", obs.pure)

-----------------------------------------------------------------------------
(* Matrices as observed                                                    *)

Num(obs) == [v \in {obs.idx[i][1] : i \in DOMAIN obs.idx} |->
               LET i == CHOOSE k \in DOMAIN obs.idx : obs.idx[k][1] = v IN obs.idx[i][2]]
NumOk(obs, ids) == LET f == Num(obs) IN
    /\ DOMAIN f = ids
    /\ {f[v] : v \in ids} = 0..(Cardinality(ids) - 1)
ShapeOk(obs, ids) == LET n == 5 * Cardinality(ids) IN obs.fin /\ Len(obs.shape) = 2 /\ obs.shape[1] = n /\ obs.shape[2] = n

(* The order in which edges list their triangles, as observed; if what is  *)
(* observed is not an order of the right triangles, any order is as good   *)
OrdOf(obs, elems) ==
    LET es == EdgesOf(elems)
        seen(e) == {i \in DOMAIN obs.ord : SetOf(obs.ord[i].n) = e}
        right(e) == ElemsOn(elems, e)
    IN  TLCEval([e \in es |->
            LET is == seen(e) IN
            IF is # {} /\ OnceEach(obs.ord[CHOOSE i \in is : TRUE].t, right(e)) THEN obs.ord[CHOOSE i \in is : TRUE].t
            ELSE SetToSeq(right(e))])

(* matrix K with numbering f as a function of nodes and dofs                *)
Blocks(K, f) == TLCEval([a \in DOMAIN f |-> [b \in DOMAIN f |->
                   [p \in Dofs |-> [q \in Dofs |-> K[5 * f[a] + p][5 * f[b] + q]]]]])
Minus(K, L) == TLCEval([a \in DOMAIN K |-> [b \in DOMAIN K |->
                 [p \in Dofs |-> [q \in Dofs |-> RSub(K[a][b][p][q], L[a][b][p][q])]]]])

MaxOver(S, f(_)) == RMaxSeq(<<"0">> \o [i \in 1..Cardinality(S) |-> f(SetToSeq(S)[i])])
(* magnitude per kind of dof: the largest diagonal entry                    *)
Mag(K) == LET ns == SetToSeq(DOMAIN K)
              m == TLCEval([p \in Dofs |-> RMaxSeq(<<"0">> \o [i \in DOMAIN ns |-> RAbs(K[ns[i]][ns[i]][p][p])])])
              floor == RMul("1/1000000000000", RMaxSeq([p \in 1..5 |-> m[p]]))
          IN  TLCEval([p \in Dofs |-> RMax(m[p], floor)])
(* magnitude of any entry, for matrices that are not definite              *)
MagAny(K) == LET ns == SetToSeq(DOMAIN K) IN
             TLCEval([p \in Dofs |-> RMaxSeq(<<"0">> \o FlattenSeq([i \in DOMAIN ns |-> [j \in DOMAIN ns |-> RAbs(K[ns[i]][ns[j]][p][p])]]))])

(* |x - y|^2 <= Tol^2 mag_p mag_q, or the difference is rounding of `base` *)
Close(x, y, mm, base) ==
    LET d == RSub(x, y) IN
    IF d = "0" THEN TRUE
    ELSE RLe(RSq(d), mm) \/ (base # "0" /\ RLe(RAbs(d), RMul(Eps, RAbs(base))))
MMof(mag) == TLCEval([p \in Dofs |-> [q \in Dofs |-> RMul(Tol2, RMul(mag[p], mag[q]))]])
SameMat(K, L, mag) ==
    LET mm == MMof(mag) IN
    \A a, b \in DOMAIN L : \A p, q \in Dofs : Close(K[a][b][p][q], L[a][b][p][q], mm[p][q], "0")
SameInc(K, B, L, mag) ==     \* K - B = L, K and B may be much larger
    LET mm == MMof(mag) IN
    \A a, b \in DOMAIN L : \A p, q \in Dofs :
        Close(RSub(K[a][b][p][q], B[a][b][p][q]), L[a][b][p][q], mm[p][q], RMax(RAbs(K[a][b][p][q]), RAbs(B[a][b][p][q])))

Symmetric(K, B) ==
    LET mm == MMof(Mag(Minus(K, B))) IN
    \A a, b \in DOMAIN K : \A p, q \in Dofs :
        Close(RSub(K[a][b][p][q], B[a][b][p][q]), RSub(K[b][a][q][p], B[b][a][q][p]), mm[p][q],
              RMax(RMax(RAbs(K[a][b][p][q]), RAbs(B[a][b][p][q])), RMax(RAbs(K[b][a][q][p]), RAbs(B[b][a][q][p]))))
OnlyDofs(K, B, D) ==
    \A a, b \in DOMAIN K : \A p, q \in Dofs : (p \notin D \/ q \notin D) => REq(K[a][b][p][q], B[a][b][p][q])

(* Force K d, with a bound for its rounding: the sum of magnitudes         *)
Flat(ns, d) == [i \in 1..(5 * Len(ns)) |-> d[ns[((i - 1) \div 5) + 1]][((i - 1) % 5) + 1]]
RowOf(K, ns, a, p) == [i \in 1..(5 * Len(ns)) |-> K[a][ns[((i - 1) \div 5) + 1]][p][((i - 1) % 5) + 1]]
AbsSeq(q) == [i \in DOMAIN q |-> RAbs(q[i])]
(* sum of mag_p d_p^2: the energy of d if nothing cancelled                *)
Size(mag, ns, d) == RSum([i \in DOMAIN ns |-> RSum([p \in 1..5 |-> RMul(mag[p], RSq(d[ns[i]][p]))])])
NoForce(K, B, d, where) ==
    LET ns == SetToSeq(DOMAIN K)
        x == TLCEval(Flat(ns, d))
        ax == TLCEval(AbsSeq(x))
        mag == Mag(Minus(K, B))
        size == Size(mag, ns, d)
    IN  \A a \in where : \A p \in Dofs :
            LET rk == RowOf(K, ns, a, p)  rb == RowOf(B, ns, a, p)
                F == RSub(RDot(rk, x), RDot(rb, x))
                bound == RAdd(RMul(Tol, RDot(AbsSeq([i \in DOMAIN rk |-> RSub(rk[i], rb[i])]), ax)),
                              RMul(Eps, RMul("20", RAdd(RDot(AbsSeq(rk), ax), RDot(AbsSeq(rb), ax)))))
            IN  IF F = "0" THEN TRUE ELSE RLe(RAbs(F), bound) \/ RLe(RSq(F), RMul(Tol2, RMul(mag[p], size)))
(* d^T (K - B) d >= 0 up to rounding                                       *)
NoNegative(K, B, d) ==
    LET I == Minus(K, B)
        ns == SetToSeq(DOMAIN K)
        mag == Mag(I)
        norm == Size(mag, ns, d)
        big(M) == RMaxSeq(<<"0">> \o FlattenSeq([i \in DOMAIN ns |-> [p \in 1..5 |-> RAbs(M[ns[i]][ns[i]][p][p])]]))
        sq == RSum([i \in DOMAIN ns |-> RSum([p \in 1..5 |-> RSq(d[ns[i]][p])])])
        E == Energy(I, d)
    IN  RSign(E) >= 0 \/ RLe(RAbs(E), RAdd(RMul(Tol, norm), RMul(RMul(Eps, "100"), RMul(big(B), sq))))
VecOf(q) == [v \in {q[i][1] : i \in DOMAIN q} |-> LET i == CHOOSE k \in DOMAIN q : q[k][1] = v IN q[i][2]]

-----------------------------------------------------------------------------
(* Displacement fields                                                     *)

Z == "0"
Field(m, f(_)) == [v \in NodeIds(m) |-> f(m.xyz[v])]
(* coordinates relative to the first node: rounding does not grow with the offset *)
RigidInPlane(m) ==
    LET o == m.xyz[CHOOSE v \in NodeIds(m) : TRUE] IN
    {Field(m, LAMBDA x : <<"1", Z, Z, Z, Z>>), Field(m, LAMBDA x : <<Z, "1", Z, Z, Z>>),
     Field(m, LAMBDA x : <<RSub(o[2], x[2]), RSub(x[1], o[1]), Z, Z, Z>>)}
RigidBending(m) ==
    LET o == m.xyz[CHOOSE v \in NodeIds(m) : TRUE] IN
    {Field(m, LAMBDA x : <<Z, Z, Z, "1", Z>>), Field(m, LAMBDA x : <<Z, Z, Z, Z, "1">>),
     Field(m, LAMBDA x : <<Z, Z, Z, RSub(o[2], x[2]), RSub(x[1], o[1])>>)}
RigidTilt(m) ==
    LET o == m.xyz[CHOOSE v \in NodeIds(m) : TRUE] IN
    {Field(m, LAMBDA x : <<Z, Z, "1", Z, Z>>),
     Field(m, LAMBDA x : <<Z, Z, RSub(x[1], o[1]), "-1", Z>>),
     Field(m, LAMBDA x : <<Z, Z, RSub(x[2], o[2]), Z, "-1">>)}
(* the linear fields and the strains (membrane, curvature) they have       *)
LinFields(m) ==
    LET o == m.xyz[CHOOSE v \in NodeIds(m) : TRUE]
        x(c) == RSub(c[1], o[1])
        y(c) == RSub(c[2], o[2]) IN
    << [f |-> Field(m, LAMBDA c : <<x(c), Z, Z, Z, Z>>), e |-> <<"1", Z, Z>>, k |-> <<Z, Z, Z>>],
       [f |-> Field(m, LAMBDA c : <<y(c), Z, Z, Z, Z>>), e |-> <<Z, Z, "1">>, k |-> <<Z, Z, Z>>],
       [f |-> Field(m, LAMBDA c : <<Z, x(c), Z, Z, Z>>), e |-> <<Z, Z, "1">>, k |-> <<Z, Z, Z>>],
       [f |-> Field(m, LAMBDA c : <<Z, y(c), Z, Z, Z>>), e |-> <<Z, "1", Z>>, k |-> <<Z, Z, Z>>],
       [f |-> Field(m, LAMBDA c : <<Z, Z, Z, x(c), Z>>), e |-> <<Z, Z, Z>>, k |-> <<"1", Z, Z>>],
       [f |-> Field(m, LAMBDA c : <<Z, Z, Z, y(c), Z>>), e |-> <<Z, Z, Z>>, k |-> <<Z, Z, "1">>],
       [f |-> Field(m, LAMBDA c : <<Z, Z, Z, Z, x(c)>>), e |-> <<Z, Z, Z>>, k |-> <<Z, Z, "1">>],
       [f |-> Field(m, LAMBDA c : <<Z, Z, Z, Z, y(c)>>), e |-> <<Z, Z, Z>>, k |-> <<Z, "1", Z>>] >>
Density(p, a, b) ==   \* strain energy density (bilinear) of two constant strain states
    RAdd(RAdd(RQuad(a.e, p.A, b.e), RQuad(a.e, p.B, b.k)), RAdd(RQuad(a.k, p.B, b.e), RQuad(a.k, p.D, b.k)))

-----------------------------------------------------------------------------
(* The data an object has now                                              *)

NP(ob) == [v \in DOMAIN ob.np |-> IF ob.np[v] = None THEN None ELSE Pool[ob.np[v]]]
EP(ob) == [k \in DOMAIN ob.ep |-> IF ob.ep[k] = None THEN None ELSE Pool[ob.ep[k]]]
M(ob)  == MeshOfObj(ob)

(* Groups of nodes that share a domain (or a triangle)                     *)
Groups(ob) == {Support(M(ob), e, SetToSeq(ElemsOn(ob.elems, e))) : e \in EdgesOf(ob.elems)}
Isolated(ob) == DOMAIN ob.xyz \ UsedNodes(ob)

-----------------------------------------------------------------------------
(* C04, C05: stored geometry                                               *)

Scale2(m) == RMaxSeq([i \in DOMAIN m.elems |-> TriLen2(m, m.elems[i])])
NearV(a, b, q2) == RLe(Len2(Vec(a, b)), RMul(Tol2, q2))      \* |a - b| <= Tol * sqrt(q2)
SamePoints(P, Q, q2) == Len(P) = Len(Q) /\ \A i \in DOMAIN P : NearV(P[i], Q[i], q2)
Rotations(P) == {[i \in DOMAIN P |-> P[((i + k - 1) % Len(P)) + 1]] : k \in 0..(Len(P) - 1)}
SamePolygon(P, Q, q2) ==     \* closing point optional, any start, any direction
    LET open == IF Len(P) = Len(Q) + 1 /\ NearV(P[1], P[Len(P)], q2) THEN SubSeq(P, 1, Len(Q)) ELSE P
    IN  Len(open) = Len(Q) /\ \E R \in Rotations(Q) \cup Rotations(Reverse(Q)) : SamePoints(open, R, q2)

GeoClauses(obs, ob, ord) ==
    LET m == M(ob)
        q2 == TLCEval(Scale2(m))
        L == q2                   \* lengths are compared squared
        g == obs.geo
        edges == [i \in DOMAIN g |-> SetOf(g[i].n)]
        ok(i) == g[i].fin /\ edges[i] \in DOMAIN ord
        area(i) == DomainArea(m, ord[edges[i]])
        segs(i) == TLCEval(Segments(m, edges[i], ord[edges[i]]))
        poly(i) == LET e == edges[i]  o == ord[e]  nn == Oriented(m, e, o)
                       p1 == At(m, nn[1])  p2 == At(m, nn[2])
                       c1 == ElemMid(m, ElemById(m, o[1])) IN
                   IF Len(o) = 1 THEN <<c1, p1, p2>> ELSE <<c1, p1, ElemMid(m, ElemById(m, o[2])), p2>>
        nle(ip) == <<RMul(ip.nv[1], ip.le), RMul(ip.nv[2], ip.le)>>
        \* the side an integration point belongs to
        side(sg, ip) == sg.elem = ip.t /\ NearV(sg.s, nle(ip), q2)
        oneEach(i, Match(_, _)) == LET sg == segs(i) IN
            /\ Len(g[i].ip) = Len(sg)
            /\ \A k \in DOMAIN sg : \E j \in DOMAIN g[i].ip : Match(sg[k], g[i].ip[j])
            /\ \A j \in DOMAIN g[i].ip : \E k \in DOMAIN sg : Match(sg[k], g[i].ip[j])
        place(ip) == LET x == [k \in 1..3 |-> At(m, ip.n[k])] IN
                     <<RDot(ip.f, [k \in 1..3 |-> x[k][1]]), RDot(ip.f, [k \in 1..3 |-> x[k][2]])>>
        cornersOk(i) == \A j \in DOMAIN g[i].ip : LET ip == g[i].ip[j] IN
                          /\ ip.t \in SetOf(ord[edges[i]])
                          /\ SetOf(ip.n) = Verts(ElemById(m, ip.t))
        lenOk(sg, ip) == RLe(RAbs(RSub(RSq(ip.le), sg.len2)), RMul(Tol, q2))
        atMid(sg, ip) == /\ sg.elem = ip.t /\ lenOk(sg, ip) /\ NearV(place(ip), sg.pt, q2)
                         /\ RNear(RSum(ip.f), "1", Tol)
                         /\ \A k \in 1..3 : RLe("-1/1000000000", ip.f[k])
        xyzOk(sg, ip) == sg.elem = ip.t /\ NearV(ip.xyz, sg.pt, q2)
    IN
    Must("stored geometry of every edge", OnceEach(edges, DOMAIN ord) /\ \A i \in DOMAIN g : g[i].fin) \cup
    (IF \E i \in DOMAIN g : ~ok(i) THEN {} ELSE
     IF PROP = "C04" THEN
        Must("domain area is a third of its triangles", \A i \in DOMAIN g : RNear(g[i].Ac, area(i), RMul(Tol, area(i)))) \cup
        Must("domains tile the mesh", RNear(RSum([i \in DOMAIN g |-> g[i].Ac]), TotalArea(m), RMul(Tol, TotalArea(m)))) \cup
        Must("domain polygon", \A i \in DOMAIN g : SamePolygon(g[i].sd, poly(i), q2)) \cup
        Must("normals times lengths are the outward sides", \A i \in DOMAIN g : oneEach(i, side)) \cup
        Must("unit normals in plane", \A i \in DOMAIN g : \A j \in DOMAIN g[i].ip : LET ip == g[i].ip[j] IN
               RNear(Dot2(ip.nv, ip.nv), "1", Tol) /\ RNear(ip.nv[3], "0", Tol)) \cup
        Must("normals close", \A i \in DOMAIN g : \A k \in 1..2 :
               RLe(RSq(RSum([j \in DOMAIN g[i].ip |-> nle(g[i].ip[j])[k]])), RMul(Tol2, q2)))
     ELSE
        Must("points lie on a triangle of the edge and use its corners", \A i \in DOMAIN g : cornersOk(i)) \cup
        (IF \E i \in DOMAIN g : ~cornersOk(i) THEN {} ELSE
        Must("one point per side with its length, weights place it in the middle", \A i \in DOMAIN g : oneEach(i, atMid)) \cup
        Must("recorded position", \A i \in DOMAIN g : oneEach(i, xyzOk))))

-----------------------------------------------------------------------------
(* Constitutive stiffness                                                  *)

DofPerms == {f \in [Dofs -> Dofs] : {f[i] : i \in Dofs} = Dofs}
SameBlock(P1, P2, mm) == \A p, q \in Dofs : Close(P1[p][q], P2[p][q], mm[p][q], "0")

K0Clauses(op, obs, ob) ==
    LET ids == DOMAIN ob.xyz
        m == M(ob)
        ord == OrdOf(obs, ob.elems)
        f == Num(obs)
        fits == NumOk(obs, ids) /\ ShapeOk(obs, ids)
        K == Blocks(obs.K, f)
        B == ZeroMat(ids)
        ideal == TLCEval(MatrixK0(m, NP(ob), EP(ob), op.pfn, ord))
    IN
    Must("finite, five rows per node, nodes numbered 0..N-1", fits \/ Aside(op)) \cup
    (IF ~fits THEN {} ELSE
     CASE PROP \in {"C04", "C05"} -> GeoClauses(obs, ob, ord)
       [] PROP \in {"C06", "C09"} -> Must("constitutive stiffness", SameMat(K, ideal, Mag(ideal)))
       [] PROP = "C07" ->
            Must("symmetric", Symmetric(K, B)) \cup
            Must("nothing in deflections", OnlyDofs(K, B, {U, V, PX, PY})) \cup
            Must("no force for rigid in-plane motion", \A d \in RigidInPlane(m) : NoForce(K, B, d, ids)) \cup
            Must("no force for rigid rotations", \A d \in RigidBending(m) : NoForce(K, B, d, ids)) \cup
            Must("no negative energy", /\ NoNegative(K, B, VecOf(op.vec))
                                       /\ obs.wit # <<>> => NoNegative(K, B, VecOf(obs.wit)))
       [] PROP = "C08" ->
            LET fs == LinFields(m)
                p == Pool[ob.np[CHOOSE v \in UsedNodes(ob) : TRUE]]
                A == TotalArea(m)
                mag == Mag(K)
                ns == SetToSeq(DOMAIN K)
            IN
            Must("no force at inner nodes", \A i \in DOMAIN fs : NoForce(K, B, fs[i].f, InnerNodes(m))) \cup
            Must("energy of constant strains", \A i, j \in DOMAIN fs : i <= j =>
                   RNear(Bilinear(K, fs[i].f, fs[j].f), RMul(A, Density(p, fs[i], fs[j])),
                         RMul(Tol, RAdd(Size(mag, ns, fs[i].f), Size(mag, ns, fs[j].f)))))
       [] PROP = "C10" ->
            LET mm == MMof(Mag(ideal))
                sharing == Groups(ob)
                own(a) == SameBlock(K[a][a], ideal[a][a], mm)
                mmAny == LET g == RMaxSeq([p \in 1..5 |-> Mag(ideal)[p]]) IN MMof([p \in Dofs |-> g])
                permuted(a) == \E r \in DofPerms : r # [p \in Dofs |-> p] /\
                       SameBlock(K[a][a], [p \in Dofs |-> [q \in Dofs |-> ideal[a][a][r[p]][r[q]]]], mmAny)
            IN
            Must("rows in the order of the numbering", \A a \in ids :
                   own(a) \/ ~\E b \in ids : b # a /\ SameBlock(K[a][a], ideal[b][b], mm)) \cup
            Must("rows of a node in the order u, v, w, phix, phiy", \A a \in ids : own(a) \/ ~permuted(a)) \cup
            Must("only nodes that share a domain are connected", \A a, b \in ids :
                   (~\E g \in sharing : {a, b} \subseteq g) => K[a][b] = Zero5) \cup
            Must("isolated nodes have zero rows", \A a \in Isolated(ob) : \A b \in ids : K[a][b] = Zero5 /\ K[b][a] = Zero5) \cup
            Must("nothing in deflections", OnlyDofs(K, B, {U, V, PX, PY}))
       [] PROP = "C12" -> Must("inputs untouched", obs.pure)
       [] OTHER -> {})

-----------------------------------------------------------------------------
(* Transverse shear                                                        *)

ShearClauses(op, obs, ob) ==
    LET ids == DOMAIN ob.xyz
        m == M(ob)
        ord == OrdOf(obs, ob.elems)
        prev == Ops(t)[at[op.h].ev].obs.K
        f == Num(obs)
        fits == NumOk(obs, ids) /\ ShapeOk(obs, ids) /\ (at[op.h].num = <<>> \/ f = at[op.h].num)
        K == Blocks(obs.K, f)
        B == Blocks(prev, f)
        Formula(asis) == TLCEval(MatrixK0s(m, NP(ob), EP(ob), op.pfn, ord, op.method, op.alpha, op.mfa, asis))
        ideal == Formula(FALSE)
        Is(F) == SameInc(K, B, F, Mag(F))
        \* the recorded deviation of the edge-based method, exactly
        AsIs == op.method = "edge-based" /\ Is(Formula(TRUE))
        key == "edge-based-z"
        p == Pool[ob.np[CHOOSE v \in UsedNodes(ob) : TRUE]]
    IN
    Must("finite, five rows per node, same numbering", fits) \cup
    (IF ~fits THEN {} ELSE
     CASE PROP \in {"C14", "C15", "C16"} -> Known("added transverse shear stiffness", key, Is(ideal), AsIs)
          \* blending and stabilisation are right in the recorded deviation, too
       [] PROP \in {"C09", "C18"} -> Must("added transverse shear stiffness", Is(ideal) \/ AsIs)
       [] PROP = "C17" ->
            Must("added in place and returned", obs.ret) \cup
            Must("symmetric", Symmetric(K, B)) \cup
            Must("only deflections and rotations", OnlyDofs(K, B, {W, PX, PY})) \cup
            Must("no negative energy", /\ NoNegative(K, B, VecOf(op.vec))
                                       /\ obs.wit # <<>> => NoNegative(K, B, VecOf(obs.wit))) \cup
            Known("no force for rigid motion", key, \A d \in RigidTilt(m) : NoForce(K, B, d, ids), AsIs)
       [] PROP = "C19" ->
            LET I == Minus(K, B)
                o == m.xyz[CHOOSE v \in NodeIds(m) : TRUE]
                fs == << [f |-> Field(m, LAMBDA c : <<Z, Z, RSub(c[1], o[1]), Z, Z>>), g |-> <<"1", Z>>],
                         [f |-> Field(m, LAMBDA c : <<Z, Z, RSub(c[2], o[2]), Z, Z>>), g |-> <<Z, "1">>],
                         [f |-> Field(m, LAMBDA c : <<Z, Z, Z, "1", Z>>), g |-> <<"1", Z>>],
                         [f |-> Field(m, LAMBDA c : <<Z, Z, Z, Z, "1">>), g |-> <<Z, "1">>] >>
                C == << <<RMul(p.k13, p.E[2][2]), Z>>, <<Z, RMul(p.k23, p.E[1][1])>> >>
                A == TotalArea(m)
                mag == Mag(I)
                ns == SetToSeq(DOMAIN I)
            IN  Known("energy of constant transverse shear", key,
                   \A i, j \in DOMAIN fs : i <= j =>
                      RNear(Bilinear(I, fs[i].f, fs[j].f), RMul(A, RQuad(fs[i].g, C, fs[j].g)),
                            RMul(Tol, RAdd(Size(mag, ns, fs[i].f), Size(mag, ns, fs[j].f)))), AsIs)
       [] PROP = "C10" ->
            Must("only nodes that share a domain are connected", \A a, b \in ids :
                   (~\E g \in Groups(ob) : {a, b} \subseteq g) => K[a][b] = B[a][b]) \cup
            Must("isolated nodes have zero rows", \A a \in Isolated(ob) : \A b \in ids : K[a][b] = B[a][b] /\ K[b][a] = B[b][a]) \cup
            Must("only deflections and rotations", OnlyDofs(K, B, {W, PX, PY}))
       [] PROP = "C12" -> Must("inputs untouched", obs.pure)
       [] OTHER -> {})

-----------------------------------------------------------------------------
(* Geometric stiffness                                                     *)

MaxAbs(q) == RMaxSeq(<<"0">> \o AbsSeq(q))
KGScale(cs, kcs, d) ==   \* bounds every term that enters an entry
    RMaxSeq(<<"0">> \o [i \in DOMAIN cs |->
        LET c == kcs[i]
            ns == SetToSeq(c.nodes)
            g == MaxAbs(FlattenSeq([k \in DOMAIN ns |-> <<c.g[ns[k]][1], c.g[ns[k]][2]>>]))
            dm == MaxAbs(FlattenSeq([k \in DOMAIN ns |-> d[ns[k]]]))
            am == RMax(MaxAbs(FlattenSeq(c.A)), MaxAbs(FlattenSeq(c.B)))
        IN  RMul(c.area, RMul(RMul(g, RSq(g)), RMul(RMul("8", am), dm)))])

KGClauses(op, obs, ob) ==
    LET ids == DOMAIN ob.xyz
        m == M(ob)
        ord == OrdOf(obs, ob.elems)
        f == Num(obs)
        fits == NumOk(obs, ids) /\ ShapeOk(obs, ids)
        K == Blocks(obs.K, f)
        B == ZeroMat(ids)
        d == VecOf(op.d)
        kcs == K0Cells(m, NP(ob), EP(ob), op.pfn, ord)
        cs == KGCells(m, NP(ob), EP(ob), op.pfn, ord, d)
        sc == KGScale(cs, kcs, d)
        mag == [q \in Dofs |-> sc]
    IN
    Must("finite, five rows per node, nodes numbered 0..N-1", fits) \cup
    (IF ~fits THEN {} ELSE
     CASE PROP \in {"C09", "C20"} ->
            Must("geometric stiffness", SameMat(K, Assemble(ids, cs, KGEntry), mag))
       [] PROP = "C21" ->
            LET mm == MMof(mag) IN
            Must("symmetric", \A a, b \in ids : \A p, q \in Dofs : Close(K[a][b][p][q], K[b][a][q][p], mm[p][q], "0")) \cup
            Must("only deflections", OnlyDofs(K, B, {W})) \cup
            Must("zero for rigid motion and for deflections alone", op.kind \in {"rigid", "wonly"} =>
                   SameMat(K, B, mag)) \cup
            Must("no force for a constant deflection", \A a \in ids :
                   RLe(RAbs(RSum([i \in 1..Cardinality(ids) |-> K[a][SetToSeq(ids)[i]][W][W]])), RMul(Tol, RMul("10", sc))))
       [] PROP = "C10" ->
            Must("only nodes that share a domain are connected", \A a, b \in ids :
                   (~\E g \in Groups(ob) : {a, b} \subseteq g) => K[a][b] = Zero5) \cup
            Must("isolated nodes have zero rows", \A a \in Isolated(ob) : \A b \in ids : K[a][b] = Zero5 /\ K[b][a] = Zero5) \cup
            Must("only deflections", OnlyDofs(K, B, {W}))
       [] PROP = "C12" -> Must("inputs untouched", obs.pure)
       [] OTHER -> {})

-----------------------------------------------------------------------------
(* Relations between matrices                                              *)

MatAt(h) == Blocks(Ops(t)[at[h].ev].obs.K, at[h].num)
MaxMag(x, y) == [p \in Dofs |-> RMax(x[p], y[p])]
Comb(a, K, b, L) == TLCEval([x \in DOMAIN K |-> [y \in DOMAIN K |->
                 [p \in Dofs |-> [q \in Dofs |-> RAdd(RMul(a, K[x][y][p][q]), RMul(b, L[x][y][p][q]))]]]])
TurnSrc == <<2, 1, 3, 5, 4>>
TurnSgn == <<"-1", "1", "1", "-1", "1">>
Turned(K) == TLCEval([x \in DOMAIN K |-> [y \in DOMAIN K |->
                 [p \in Dofs |-> [q \in Dofs |->
                    RMul(RMul(TurnSgn[p], TurnSgn[q]), K[x][y][TurnSrc[p]][TurnSrc[q]])]]]])

CmpClauses(op) ==
    LET hs == IF op.kind \in {"sum", "comb"} THEN {op.a, op.b, op.c} ELSE {op.a, op.b}
        usable == \A h \in hs : h \in DOMAIN at /\ at[h].num # <<>> /\ at[h].fits
    IN
    IF ~usable THEN {}      \* the computation itself has been reported
    ELSE LET A == MatAt(op.a)  B == MatAt(op.b) IN
    CASE op.kind = "equal" ->
            Must("matrices agree", DOMAIN A = DOMAIN B /\ SameMat(A, B, MaxMag(MagAny(A), MagAny(B))))
      [] op.kind = "sum" ->
            LET C == MatAt(op.c) IN
            Must("linear in membrane, coupling and bending data", SameMat(C, Plus(A, B), MaxMag(MaxMag(MagAny(A), MagAny(B)), MagAny(C))))
      [] op.kind = "comb" ->
            LET C == MatAt(op.c) IN
            Must("linear in the displacements",
                 SameMat(C, Comb("2", A, "-1/2", B), MaxMag(MaxMag(MagAny(A), MagAny(B)), MagAny(C))))
      [] op.kind = "local" ->
            LET ob == s.objs[at[op.a].o]
                cn == {v \in DOMAIN ob.np : at[op.a].np[v] # at[op.b].np[v]}
                ce == {k \in DOMAIN ob.ep : at[op.a].ep[k] # at[op.b].ep[k]}
                es == EdgesOf(ob.elems)
                sup(e) == Support(M(ob), e, SetToSeq(ElemsOn(ob.elems, e)))
                touched == IF at[op.a].pfn THEN {sup(e) : e \in {x \in es : sup(x) \cap cn # {}}}
                           ELSE {sup(e) : e \in {x \in es : ElemsOn(ob.elems, x) \cap ce # {}}}
                mm == MMof(MaxMag(MagAny(A), MagAny(B)))
            IN  Must("a property acts only where its domains are", \A a, b \in DOMAIN A :
                   (~\E g \in touched : {a, b} \subseteq g) => SameBlock(A[a][b], B[a][b], mm))
      [] op.kind = "twin" ->
            LET to == [v \in {op.map[i][1] : i \in DOMAIN op.map} |->
                         LET i == CHOOSE k \in DOMAIN op.map : op.map[k][1] = v IN op.map[i][2]]
                R == IF op.rot = 1 THEN Turned(A) ELSE A
                mag == MaxMag(MagAny(R), MagAny(B))
                mm == MMof(mag)
            IN  Must("same matrix up to labels and placement", \A a, b \in DOMAIN R : SameBlock(B[to[a]][to[b]], R[a][b], mm))
      [] op.kind = "mono" ->   \* a has the smaller alpha: energy must not grow
            LET z == ZeroMat(DOMAIN A)
                d == VecOf(Ops(t)[at[op.a].ev].vec) IN
            Must("more stabilisation never stiffens", NoNegative(A, B, d))
      [] OTHER -> {}

-----------------------------------------------------------------------------
(* One step                                                                *)

C13Clauses(op, obs) ==
    (IF op.op = "k0" /\ Outcome(s, op) = "ValueError"
     THEN Must("nothing on the mesh changes", obs.pure /\ obs.same) ELSE {}) \cup
    (IF op.op = "k0s" /\ Outcome(s, op) = "ValueError"
     THEN Must("matrix unchanged", obs.kept) ELSE {})
C30Clauses(obs) ==
    Must("prints nothing", obs.said = "") \cup
    (IF "quiet" \in DOMAIN obs THEN Must("silent prints nothing", obs.quiet = "") \cup
                                    Must("asked to, it speaks", obs.loud # "") \cup
                                    Must("all it says goes through the logger", obs.logged) \cup
                                    Must("silence changes no result", obs.agree) ELSE {})

Clauses ==
    LET op == Op  obs == Obs IN
    IF dead THEN {}
    ELSE IF obs.out # Outcome(s, op)
         THEN IF Aside(op) THEN {} ELSE {<<"FAIL", op.op \o " answered " \o obs.out \o " instead of " \o Outcome(s, op)>>}
    ELSE
    (IF PROP = "C30" THEN C30Clauses(obs) ELSE {}) \cup
    (IF PROP = "C13" THEN C13Clauses(op, obs) ELSE {}) \cup
    (IF Outcome(s, op) # "ok" THEN {}
     ELSE CASE op.op = "read" -> ReadClauses(op, obs, NewObj(op))
            [] op.op = "k0"   -> K0Clauses(op, obs, Obj(s, op))
            [] op.op = "k0s"  -> ShearClauses(op, obs, Obj(s, op))
            [] op.op = "kG"   -> KGClauses(op, obs, Obj(s, op))
            [] op.op = "cmp"  -> CmpClauses(op)
            [] op.op = "mids" -> MidClauses(obs, Obj(s, op))
            [] op.op = "live" -> (IF PROP \in {"C02", "C12"} THEN Must("meshes share nothing", ~obs.leak) ELSE {}) \cup
                                 (IF PROP \in {"C02", "C03", "C12"} THEN Must("point clouds and triangulations unchanged", obs.clouds) ELSE {}) \cup
                                 (IF PROP \in {"C01", "C02", "C03"} THEN {} ELSE Must("earlier results unchanged", obs.mats))
            [] OTHER -> {})

Remember ==      \* after a successful matrix computation
    LET op == Op  obs == Obs  ob == Obj(s, op)  ids == DOMAIN ob.xyz IN
    [ev |-> l, o |-> op.o, np |-> ob.np, ep |-> ob.ep,
     pfn |-> IF "pfn" \in DOMAIN op THEN op.pfn ELSE FALSE,
     num |-> IF op.op = "start" THEN <<>> ELSE IF NumOk(obs, ids) THEN Num(obs) ELSE <<>>,
     fits |-> IF op.op = "start" THEN TRUE ELSE NumOk(obs, ids) /\ ShapeOk(obs, ids)]

Init == /\ t \in DOMAIN Traces
        /\ l = 1 /\ s = EmptySession /\ at = <<>> /\ dead = FALSE

Consume ==
    /\ l <= Len(Ops(t))
    /\ Assert(dead \/ Valid(s, Op), <<"the driver performed an operation the session does not allow", t, l>>)
    /\ LET cl == TLCEval(Clauses)
           wrong == ~dead /\ Obs.out # Outcome(s, Op)
       IN  /\ \A c \in cl : PrintT(c[1] \o "|" \o ToString(Traces[t].id) \o "|" \o ToString(l) \o "|" \o c[2])
           /\ dead' = (dead \/ wrong)
           /\ s' = IF dead \/ wrong THEN s ELSE Step(s, Op)
           /\ at' = IF ~dead /\ ~wrong /\ Outcome(s, Op) = "ok" /\ Op.op \in {"k0", "k0s", "kG", "start"}
                    THEN Put(at, Op.h, Remember) ELSE at
    /\ l' = l + 1
    /\ UNCHANGED t

Next == Consume

(* Every operation of every execution has been consumed                    *)
RECURSIVE Steps(_, _)
Steps(a, b) == IF a > b THEN 0 ELSE IF a = b THEN Len(Ops(a)) + 1
               ELSE Steps(a, (a + b) \div 2) + Steps((a + b) \div 2 + 1, b)
AllConsumed == TLCGet("stats").distinct = Steps(1, Len(Traces))
=============================================================================
