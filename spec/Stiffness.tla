----------------------------- MODULE Stiffness -----------------------------
(***************************************************************************)
(* The matrices of the ES-PIM plate, 5 degrees of freedom per node:        *)
(* u, v, w, phix, phiy (1..5 below).                                       *)
(*                                                                         *)
(* A property p is a record: A, B, D (3x3, sequences of rows), E (2x2,     *)
(* <<<<G44, G45>>, <<G45, G55>>>>: index 44 is the yz plane, 55 the xz     *)
(* plane), thickness h, shear correction factors k13, k23.                 *)
(*                                                                         *)
(* np : [node id -> property]   ep : [element id -> property]              *)
(* ord: [edge -> sequence of the triangles on it]                          *)
(*                                                                         *)
(* Every matrix is described by a sequence of cells; a cell carries its    *)
(* nodes, its area and what it needs to give the 5x5 block of two nodes.   *)
(***************************************************************************)
EXTENDS Domains

U == 1  V == 2  W == 3  PX == 4  PY == 5
Dofs == 1..5

(* Weighted sums of properties                                             *)
Mix(ws, xs)  == RDot(ws, xs)
MixM(ws, Ms) == [i \in DOMAIN Ms[1] |-> [j \in DOMAIN Ms[1][i] |->
                    RDot(ws, [k \in DOMAIN Ms |-> Ms[k][i][j]])]]

(* The constitutive data of an edge domain are a weighted sum of the       *)
(* properties ps with weights ws                                           *)
DomainMix(m, np, ep, pfn, e, o) ==
    IF pfn
    THEN LET nn == Oriented(m, e, o) IN
         IF Len(o) = 1
         THEN [ws |-> <<"4/9", "4/9", "1/9">>,
               ps |-> <<np[nn[1]], np[nn[2]], np[Apex(ElemById(m, o[1]), e)]>>]
         ELSE [ws |-> <<"5/12", "5/12", "1/12", "1/12">>,
               ps |-> <<np[nn[1]], np[nn[2]], np[Apex(ElemById(m, o[1]), e)],
                        np[Apex(ElemById(m, o[2]), e)]>>]
    ELSE LET ar == [i \in DOMAIN o |-> ElemArea(m, ElemById(m, o[i]))]
             tot == RSum(ar)
         IN  [ws |-> [i \in DOMAIN o |-> RDiv(ar[i], tot)],
              ps |-> [i \in DOMAIN o |-> ep[o[i]]]]

-----------------------------------------------------------------------------
(* K0: constitutive stiffness, membrane, bending and their coupling        *)

K0Cell(m, np, ep, pfn, e, o) ==
    LET segs == TLCEval(Segments(m, e, o))
        Ac == DomainArea(m, o)
        mx == TLCEval(DomainMix(m, np, ep, pfn, e, o))
        sup == Support(m, e, o)
    IN  [nodes |-> sup, area |-> Ac,
         g |-> [k \in sup |-> SmoothGrad(segs, Ac, k)],
         A |-> MixM(mx.ws, [i \in DOMAIN mx.ps |-> mx.ps[i].A]),
         B |-> MixM(mx.ws, [i \in DOMAIN mx.ps |-> mx.ps[i].B]),
         D |-> MixM(mx.ws, [i \in DOMAIN mx.ps |-> mx.ps[i].D])]

EdgeSeq(ord) == SetToSeq(DOMAIN ord)
K0Cells(m, np, ep, pfn, ord) ==
    LET es == EdgeSeq(ord)
    IN  TLCEval([i \in DOMAIN es |-> K0Cell(m, np, ep, pfn, es[i], ord[es[i]])])

(* Strain columns: (exx, eyy, gxy) of u, v and (kxx, kyy, kxy) of phix, phiy *)
Col(p, g) == IF p \in {U, PX} THEN <<g[1], "0", g[2]>> ELSE <<"0", g[2], g[1]>>
Part(c, p, q) == IF p \in {U, V} THEN (IF q \in {U, V} THEN c.A ELSE c.B)
                                 ELSE (IF q \in {U, V} THEN c.B ELSE c.D)
Zero5 == [p \in Dofs |-> [q \in Dofs |-> "0"]]
K0Entry(c, a, b, p, q) ==
    IF p = W \/ q = W THEN "0"
    ELSE RMul(c.area, RQuad(Col(p, c.g[a]), Part(c, p, q), Col(q, c.g[b])))

-----------------------------------------------------------------------------
(* K0s: transverse shear by the discrete shear gap (DSG)                   *)

(* Constant shear strains (gxz, gyz) on triangle P0 P1 P2 in terms of the  *)
(* (w, phix, phiy) of its corners, shear gaps measured from corner P0:     *)
(* three 2x3 matrices.                                                     *)
DSG(a, b, c, d, Ar) ==
    LET s == RDiv("1/2", Ar)
        h(x, y) == RMul("1/2", RMul(x, y))
        sc(M) == [i \in 1..2 |-> [j \in 1..3 |-> RMul(s, M[i][j])]]
    IN  << sc(<< <<RSub(b, d), Ar, "0">>,
                 <<RSub(c, a), "0", Ar>> >>),
           sc(<< <<d, h(a, d), h(b, d)>>,
                 <<RNeg(c), RNeg(h(a, c)), RNeg(h(b, c))>> >>),
           sc(<< <<RNeg(b), RNeg(h(b, c)), RNeg(h(b, d))>>,
                 <<a, h(a, c), h(a, d)>> >>) >>
DSGTri(P0, P1, P2) ==
    DSG(RSub(P1[1], P0[1]), RSub(P1[2], P0[2]), RSub(P2[1], P0[1]), RSub(P2[2], P0[2]),
        RMul("1/2", Cross(Vec(P0, P1), Vec(P0, P2))))     \* signed: any orientation will do

MAdd(M, N)   == [i \in 1..2 |-> [j \in 1..3 |-> RAdd(M[i][j], N[i][j])]]
MScale(r, M) == [i \in 1..2 |-> [j \in 1..3 |-> RMul(r, M[i][j])]]
Zero23 == << <<"0", "0", "0">>, <<"0", "0", "0">> >>

(* Stabilisation: shear moduli are divided by 1 + alpha l^2 / h^2          *)
Stab(alpha, l2, h) == RDiv("1", RAdd("1", RDiv(RMul(alpha, l2), RSq(h))))
(* xz shear is resisted by G55 with k13, yz shear by G44 with k23          *)
ShearC(E, k13, k23, st) ==
    << <<RMul(st, RMul(k13, E[2][2])), "0">>, <<"0", RMul(st, RMul(k23, E[1][1]))>> >>
ShearC45(E, k13, k23, st) ==
    LET c45 == RMul(st, RMul(RMin(k13, k23), E[1][2])) IN
    << <<RMul(st, RMul(k13, E[2][2])), c45>>, <<c45, RMul(st, RMul(k23, E[1][1]))>> >>

TriMix(np, ep, pfn, el) ==
    IF pfn THEN [ws |-> <<"1/3", "1/3", "1/3">>, ps |-> <<np[el.n[1]], np[el.n[2]], np[el.n[3]]>>]
           ELSE [ws |-> <<"1">>, ps |-> <<ep[el.eid]>>]
MixE(mx)   == MixM(mx.ws, [i \in DOMAIN mx.ps |-> mx.ps[i].E])
MixH(mx)   == Mix(mx.ws, [i \in DOMAIN mx.ps |-> mx.ps[i].h])
MixK13(mx) == Mix(mx.ws, [i \in DOMAIN mx.ps |-> mx.ps[i].k13])
MixK23(mx) == Mix(mx.ws, [i \in DOMAIN mx.ps |-> mx.ps[i].k23])

TriLen2(m, el) ==
    RMaxSeq(<<Len2(Vec(At(m, el.n[1]), At(m, el.n[2]))),
              Len2(Vec(At(m, el.n[2]), At(m, el.n[3]))),
              Len2(Vec(At(m, el.n[3]), At(m, el.n[1])))>>)

(* cell-based: mean over the three sub-triangles centroid - n - n', the    *)
(* centroid's values being the mean of the corners'                        *)
CellBased(m, np, ep, pfn, alpha, mfa, el) ==
    LET M == ElemMid(m, el)
        n == el.n
        Ar == ElemArea(m, el)
        P(i) == At(m, n[i])
        sub == TLCEval([i \in 1..3 |-> DSGTri(M, P(i), P((i % 3) + 1))])
        subA == [i \in 1..3 |-> TriArea(M, P(i), P((i % 3) + 1))]
        third(i) == MScale("1/3", sub[i][1])
        wgt(i) == RDiv(subA[i], Ar)
        \* contribution of sub-triangle i to corner k
        part(i, k) == MScale(wgt(i), MAdd(third(i),
                        IF k = i THEN sub[i][2] ELSE IF k = (i % 3) + 1 THEN sub[i][3] ELSE Zero23))
        mx == TLCEval(TriMix(np, ep, pfn, el))
        l2 == IF mfa THEN Ar ELSE TriLen2(m, el)
        idx(v) == CHOOSE k \in 1..3 : n[k] = v
    IN  [nodes |-> Verts(el), area |-> Ar,
         s |-> [v \in Verts(el) |-> MAdd(part(1, idx(v)), MAdd(part(2, idx(v)), part(3, idx(v))))],
         C |-> ShearC(MixE(mx), MixK13(mx), MixK23(mx), Stab(alpha, l2, MixH(mx)))]

(* cell-based-no-smoothing: one DSG triangle, gaps measured from the first *)
(* corner (from the second when the corners are listed clockwise)          *)
NoSmoothing(m, np, ep, pfn, alpha, mfa, el) ==
    LET ccw == Orient(At(m, el.n[1]), At(m, el.n[2]), At(m, el.n[3])) >= 0
        n == IF ccw THEN el.n ELSE <<el.n[2], el.n[1], el.n[3]>>
        Ar == ElemArea(m, el)
        sub == TLCEval(DSGTri(At(m, n[1]), At(m, n[2]), At(m, n[3])))
        mx == TLCEval(TriMix(np, ep, pfn, el))
        l2 == IF mfa THEN Ar ELSE TriLen2(m, el)
    IN  [nodes |-> Verts(el), area |-> Ar,
         s |-> [v \in Verts(el) |-> sub[CHOOSE k \in 1..3 : n[k] = v]],
         C |-> ShearC(MixE(mx), MixK13(mx), MixK23(mx), Stab(alpha, l2, MixH(mx)))]

(* edge-based: mean over the (one or two) sub-triangles of the edge domain *)
(* bias1 is the y used for the first end node in the first sub-triangle of *)
(* an interior edge: its own y.  The shipped code uses its z instead (see  *)
(* known_findings.txt); AsIs reproduces that deviation.                    *)
EdgeBased(m, np, ep, pfn, alpha, mfa, e, o, asis) ==
    LET nn == Oriented(m, e, o)
        n1 == nn[1]  n2 == nn[2]
        P1 == At(m, n1)  P2 == At(m, n2)
        o1 == Apex(ElemById(m, o[1]), e)
        M1 == ElemMid(m, ElemById(m, o[1]))
        Ac == DomainArea(m, o)
        mx == TLCEval(DomainMix(m, np, ep, pfn, e, o))
        segs == TLCEval(Segments(m, e, o))
        ll == RMaxSeq([i \in DOMAIN segs |-> segs[i].len2] \o <<Len2(Vec(P1, P2))>>)
        l2 == IF mfa THEN Ac ELSE ll
        st == Stab(alpha, l2, MixH(mx))
    IN  IF Len(o) = 1
        THEN LET d == TLCEval(DSGTri(M1, P1, P2))
                 t == MScale("1/3", d[1])
             IN  [nodes |-> {n1, n2, o1}, area |-> Ac,
                  s |-> (n1 :> MAdd(d[2], t)) @@ (n2 :> MAdd(d[3], t)) @@ (o1 :> t),
                  C |-> ShearC(MixE(mx), MixK13(mx), MixK23(mx), st)]
        ELSE LET o2 == Apex(ElemById(m, o[2]), e)
                 M2 == ElemMid(m, ElemById(m, o[2]))
                 A1 == TriArea(M1, P1, P2)
                 A2 == TriArea(M2, P1, P2)
                 y1 == IF asis THEN P1[3] ELSE P1[2]
                 d1 == TLCEval(DSG(RSub(P1[1], M1[1]), RSub(y1, M1[2]),
                                   RSub(P2[1], M1[1]), RSub(P2[2], M1[2]), A1))
                 d2 == TLCEval(DSGTri(P1, M2, P2))
                 t1 == MScale("1/3", d1[1])
                 t2 == MScale("1/3", d2[2])
                 w1 == RDiv(A1, Ac)
                 w2 == RDiv(A2, Ac)
             IN  [nodes |-> {n1, n2, o1, o2}, area |-> Ac,
                  s |-> (n1 :> MAdd(MScale(w1, MAdd(d1[2], t1)), MScale(w2, MAdd(d2[1], t2)))) @@
                        (n2 :> MAdd(MScale(w1, MAdd(d1[3], t1)), MScale(w2, MAdd(d2[3], t2)))) @@
                        (o1 :> MScale(w1, t1)) @@ (o2 :> MScale(w2, t2)),
                  C |-> ShearC45(MixE(mx), MixK13(mx), MixK23(mx), st)]

Methods == {"cell-based", "cell-based-no-smoothing", "edge-based"}

ShearCells(m, np, ep, pfn, ord, method, alpha, mfa, asis) ==
    CASE method = "cell-based" ->
            TLCEval([i \in DOMAIN m.elems |-> CellBased(m, np, ep, pfn, alpha, mfa, m.elems[i])])
      [] method = "cell-based-no-smoothing" ->
            TLCEval([i \in DOMAIN m.elems |-> NoSmoothing(m, np, ep, pfn, alpha, mfa, m.elems[i])])
      [] method = "edge-based" ->
            LET es == EdgeSeq(ord)
            IN  TLCEval([i \in DOMAIN es |->
                    EdgeBased(m, np, ep, pfn, alpha, mfa, es[i], ord[es[i]], asis)])

ShearEntry(c, a, b, p, q) ==
    IF p < W \/ q < W THEN "0"
    ELSE RMul(c.area, RQuad([i \in 1..2 |-> c.s[a][i][p - 2]], c.C, [i \in 1..2 |-> c.s[b][i][q - 2]]))

-----------------------------------------------------------------------------
(* KG: geometric stiffness of the membrane forces caused by displacements  *)
(* d : [node id -> <<u, v, w, phix, phiy>>]                                *)

Forces(c, d) ==
    LET ns == SetToSeq(c.nodes)
        gx == [i \in DOMAIN ns |-> c.g[ns[i]][1]]
        gy == [i \in DOMAIN ns |-> c.g[ns[i]][2]]
        val(k) == [i \in DOMAIN ns |-> d[ns[i]][k]]
        em == <<RDot(gx, val(U)), RDot(gy, val(V)), RAdd(RDot(gy, val(U)), RDot(gx, val(V)))>>
        eb == <<RDot(gx, val(PX)), RDot(gy, val(PY)), RAdd(RDot(gy, val(PX)), RDot(gx, val(PY)))>>
    IN  [i \in 1..3 |-> RAdd(RDot(c.A[i], em), RDot(c.B[i], eb))]

KGCells(m, np, ep, pfn, ord, d) ==
    LET cs == K0Cells(m, np, ep, pfn, ord)
    IN  TLCEval([i \in DOMAIN cs |->
            LET N == Forces(cs[i], d) IN
            [nodes |-> cs[i].nodes, area |-> cs[i].area, g |-> cs[i].g,
             N |-> << <<N[1], N[3]>>, <<N[3], N[2]>> >>]])
KGEntry(c, a, b, p, q) ==
    IF p # W \/ q # W THEN "0" ELSE RMul(c.area, RQuad(c.g[a], c.N, c.g[b]))

-----------------------------------------------------------------------------
(* Assembly: [node -> [node -> 5x5]] from cells and an entry function      *)

Assemble(ids, cells, Entry(_, _, _, _, _)) ==
    TLCEval([a \in ids |-> [b \in ids |->
        LET cs == SetToSeq({i \in DOMAIN cells : a \in cells[i].nodes /\ b \in cells[i].nodes})
        IN  IF cs = <<>> THEN Zero5
            ELSE [p \in Dofs |-> [q \in Dofs |->
                    RSum([k \in DOMAIN cs |-> Entry(cells[cs[k]], a, b, p, q)])]]]])

MatrixK0(m, np, ep, pfn, ord) ==
    Assemble(NodeIds(m), K0Cells(m, np, ep, pfn, ord), K0Entry)
MatrixK0s(m, np, ep, pfn, ord, method, alpha, mfa, asis) ==
    Assemble(NodeIds(m), ShearCells(m, np, ep, pfn, ord, method, alpha, mfa, asis), ShearEntry)
MatrixKG(m, np, ep, pfn, ord, d) ==
    Assemble(NodeIds(m), KGCells(m, np, ep, pfn, ord, d), KGEntry)

Plus(K, L) == TLCEval([a \in DOMAIN K |-> [b \in DOMAIN K |->
                 [p \in Dofs |-> [q \in Dofs |-> RAdd(K[a][b][p][q], L[a][b][p][q])]]]])
ZeroMat(ids) == [a \in ids |-> [b \in ids |-> Zero5]]

(* d^T K e for nodal vectors d, e : [node id -> 5 values]                  *)
Bilinear(K, d, e) ==
    LET ns == SetToSeq(DOMAIN K)
    IN  RSum([i \in DOMAIN ns |-> RSum([j \in DOMAIN ns |-> RQuad(d[ns[i]], K[ns[i]][ns[j]], e[ns[j]])])])
Energy(K, d) == Bilinear(K, d, d)
=============================================================================
