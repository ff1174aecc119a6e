------------------------------- MODULE Planar -------------------------------
(***************************************************************************)
(* Planar conforming triangulations on the integer lattice, and how they   *)
(* grow: the environment that hands meshes to the library.                 *)
(* Points are <<i, j>>, a triangle is a sequence of three points.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

LOCAL Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
(* twice the signed area of a, b, c                                        *)
Twice(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Side(a, b, c)  == Sgn(Twice(a, b, c))
Corners(t)     == {t[1], t[2], t[3]}
SidesOf(t)     == {{t[1], t[2]}, {t[2], t[3]}, {t[3], t[1]}}

(* p lies on the closed segment a b                                        *)
OnSeg(p, a, b) ==
    /\ Twice(a, b, p) = 0
    /\ (p[1] - a[1]) * (p[1] - b[1]) + (p[2] - a[2]) * (p[2] - b[2]) <= 0
StrictlyIn(p, t) == LET o == Side(t[1], t[2], t[3]) IN
    /\ Side(t[1], t[2], p) = o /\ Side(t[2], t[3], p) = o /\ Side(t[3], t[1], p) = o

(* a line along a side of t has t on one side and s on the other           *)
Separates(t, s) ==
    \E i \in 1..3 :
        LET a == t[i]  b == t[(i % 3) + 1]  c == t[((i + 1) % 3) + 1]
            o == Side(a, b, c)
        IN  \A k \in 1..3 : Side(a, b, s[k]) * o <= 0
Disjoint(t, s) == Separates(t, s) \/ Separates(s, t)
Touching(t, s) ==       \* a corner of s inside a side of t
    \E k \in 1..3 : s[k] \notin Corners(t) /\ \E e \in SidesOf(t) :
        LET a == CHOOSE x \in e : TRUE  b == CHOOSE x \in e : x # a IN OnSeg(s[k], a, b)
Conform(t, s) == Corners(t) # Corners(s) /\ Disjoint(t, s) /\ ~Touching(t, s) /\ ~Touching(s, t)

Proper(t) == Twice(t[1], t[2], t[3]) # 0
Fits(tris, t) == Proper(t) /\ \A i \in DOMAIN tris : Conform(tris[i], t)

(* Thin triangles make floating point, not the algorithm, the subject.     *)
D2(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
MaxSide2(t) == LET a == D2(t[1], t[2])  b == D2(t[2], t[3])  c == D2(t[3], t[1])
                   m == IF a > b THEN a ELSE b IN IF m > c THEN m ELSE c
Slim(t) == LET w == Twice(t[1], t[2], t[3]) IN MaxSide2(t) > 12 * (IF w < 0 THEN -w ELSE w)

SideCount(tris, e) == Cardinality({i \in DOMAIN tris : e \in SidesOf(tris[i])})
Rim(tris) == {e \in UNION {SidesOf(tris[i]) : i \in DOMAIN tris} : SideCount(tris, e) = 1}
PointsOf(tris) == UNION {Corners(tris[i]) : i \in DOMAIN tris}

(* Growth steps: a new triangle on a boundary side, or splitting one       *)
Grown(tris, lat) ==
    {Append(tris, t) : t \in {u \in
        UNION {{<<CHOOSE x \in e : TRUE, CHOOSE x \in e : x # CHOOSE y \in e : TRUE, p>> : p \in lat}
               : e \in Rim(tris)} : ~Slim(u) /\ Fits(tris, u)}}
SplitAt(tris, i, p) ==
    LET t == tris[i] IN
    [tris EXCEPT ![i] = <<t[1], t[2], p>>] \o <<<<t[2], t[3], p>>, <<t[3], t[1], p>>>>
Splits(tris, lat) ==
    {SplitAt(tris, ip[1], ip[2]) : ip \in
        {q \in (DOMAIN tris) \X lat : StrictlyIn(q[2], tris[q[1]])}}

Conforming(tris) == /\ \A i \in DOMAIN tris : Proper(tris[i])
                    /\ \A i, j \in DOMAIN tris : i # j => Conform(tris[i], tris[j])
                    /\ \A e \in UNION {SidesOf(tris[i]) : i \in DOMAIN tris} : SideCount(tris, e) \in {1, 2}
=============================================================================
