------------------------------ MODULE Polygon ------------------------------
(* Simple polygons built from ears: a triangle, then further triangles     *)
(* with one new corner each on a side of the outline.  The outline is a    *)
(* sequence of lattice points; its area is that of the triangles.          *)
EXTENDS Planar, Rat

Insert(poly, i, p) == SubSeq(poly, 1, i) \o <<p>> \o SubSeq(poly, i + 1, Len(poly))
Ears(poly, tris, lat) ==
    {q \in (1..Len(poly)) \X lat :
        LET t == <<poly[q[1]], poly[(q[1] % Len(poly)) + 1], q[2]>> IN
        q[2] \notin PointsOf(tris) /\ Fits(tris, t)}
Grow(poly, tris, q) ==
    [poly |-> Insert(poly, q[1], q[2]),
     tris |-> Append(tris, <<poly[q[1]], poly[(q[1] % Len(poly)) + 1], q[2]>>)]

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE TwiceArea(_)
TwiceArea(tris) == IF tris = <<>> THEN 0 ELSE Abs(Twice(Head(tris)[1], Head(tris)[2], Head(tris)[3])) + TwiceArea(Tail(tris))
(* the shoelace sum of an outline (twice the signed area)                  *)
RECURSIVE ShoeFrom(_, _)
ShoeFrom(p, i) == IF i > Len(p) THEN 0
                  ELSE LET a == p[i]  b == p[(i % Len(p)) + 1] IN a[1] * b[2] - b[1] * a[2] + ShoeFrom(p, i + 1)
Shoe2(p) == Abs(ShoeFrom(p, 1))
=============================================================================
