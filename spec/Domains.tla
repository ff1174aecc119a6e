------------------------------ MODULE Domains ------------------------------
(***************************************************************************)
(* Edge-based smoothing domains of the ES-PIM.                             *)
(*                                                                         *)
(* The domain of an edge is the polygon spanned by its two end nodes and   *)
(* the centroids of the (one or two) triangles that share it.  `ord` is    *)
(* the sequence of those triangles' ids in the order the mesh lists them.  *)
(***************************************************************************)
EXTENDS Mesh

(* End nodes <<n1, n2>> such that the first triangle lies to the left of n1 -> n2 *)
Oriented(m, e, ord) ==
    LET a == CHOOSE v \in e : TRUE
        b == CHOOSE v \in e : v # a
        mid == ElemMid(m, ElemById(m, ord[1]))
    IN  IF Orient(At(m, a), At(m, b), mid) >= 0 THEN <<a, b>> ELSE <<b, a>>

DomainArea(m, ord) ==
    RMul("1/3", RSum([i \in DOMAIN ord |-> ElemArea(m, ElemById(m, ord[i]))]))

(* One boundary segment from point p to point q (counter-clockwise); the   *)
(* outward normal times the length is (dy, -dx).  f gives the weights with *)
(* which nodal values are interpolated to the segment's integration point. *)
Seg(p, q, elem, f) ==
    [s |-> <<RSub(q[2], p[2]), RSub(p[1], q[1])>>, len2 |-> Len2(Vec(p, q)), elem |-> elem, f |-> f,
     pt |-> VLin("1/2", p, "1/2", q)]

Segments(m, e, ord) ==
    LET nn == Oriented(m, e, ord)
        n1 == nn[1]  n2 == nn[2]
        P1 == At(m, n1)  P2 == At(m, n2)
        t1 == ElemById(m, ord[1])
        o1 == Apex(t1, e)
        M1 == ElemMid(m, t1)
        near1(o) == (n1 :> "2/3") @@ (n2 :> "1/6") @@ (o :> "1/6")
        near2(o) == (n1 :> "1/6") @@ (n2 :> "2/3") @@ (o :> "1/6")
        half(o)  == (n1 :> "1/2") @@ (n2 :> "1/2") @@ (o :> "0")
        inner == <<Seg(M1, P1, ord[1], near1(o1)), Seg(P2, M1, ord[1], near2(o1))>>
    IN  IF Len(ord) = 1
        THEN inner \o <<Seg(P1, P2, ord[1], half(o1))>>
        ELSE LET t2 == ElemById(m, ord[2])
                 o2 == Apex(t2, e)
                 M2 == ElemMid(m, t2)
             IN  inner \o <<Seg(M2, P2, ord[2], near2(o2)), Seg(P1, M2, ord[2], near1(o2))>>

(* Nodes whose values enter the domain                                     *)
Support(m, e, ord) ==
    e \cup {Apex(ElemById(m, ord[i]), e) : i \in DOMAIN ord}

(* Smoothed gradient of node k's shape function: 1/Ac * sum f_k n le       *)
SmoothGrad(segs, Ac, k) ==
    LET w == [i \in DOMAIN segs |-> IF k \in DOMAIN segs[i].f THEN segs[i].f[k] ELSE "0"]
    IN  <<RDiv(RDot(w, [i \in DOMAIN segs |-> segs[i].s[1]]), Ac),
          RDiv(RDot(w, [i \in DOMAIN segs |-> segs[i].s[2]]), Ac)>>

(* What the smoothing amounts to: the area-weighted mean of the triangles' *)
(* own gradients (a theorem, checked by TLC in MCDomains).                 *)
MeanGrad(m, ord, k) ==
    LET ar == [i \in DOMAIN ord |-> ElemArea(m, ElemById(m, ord[i]))]
        g(i) == IF k \in Verts(ElemById(m, ord[i])) THEN ShapeGrad(m, ElemById(m, ord[i]), k) ELSE <<"0", "0">>
    IN  <<RDiv(RDot(ar, [i \in DOMAIN ord |-> g(i)[1]]), RSum(ar)),
          RDiv(RDot(ar, [i \in DOMAIN ord |-> g(i)[2]]), RSum(ar))>>

(* Area swept by the outward normals (divergence theorem): 1/2 sum s . x   *)
SweptArea(segs) == RMul("1/2", RSum([i \in DOMAIN segs |-> Dot2(segs[i].s, segs[i].pt)]))
Closed(segs)    == /\ RSum([i \in DOMAIN segs |-> segs[i].s[1]]) = "0"
                   /\ RSum([i \in DOMAIN segs |-> segs[i].s[2]]) = "0"
=============================================================================
