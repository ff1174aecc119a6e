----------------------------- MODULE MCPolygon -----------------------------
(* Exhaustive over the simple polygons with at most MaxV corners that grow *)
(* on an (N+1) x (N+1) lattice: the shoelace formula gives their area, from*)
(* any start, in either direction, after any translation.                  *)
EXTENDS Polygon
CONSTANTS N, MaxV
VARIABLES poly, tris
Lat == (0..N) \X (0..N)
view == poly
Init == \E t \in {u \in Lat \X Lat \X Lat : Proper(u) /\ u[1] = <<0, 0>>} : poly = <<t[1], t[2], t[3]>> /\ tris = <<t>>
Next == Len(poly) < MaxV /\ \E q \in Ears(poly, tris, Lat) :
            poly' = Grow(poly, tris, q).poly /\ tris' = Grow(poly, tris, q).tris
Turn(p, k) == [i \in DOMAIN p |-> p[((i + k - 1) % Len(p)) + 1]]
Shift(p, d) == [i \in DOMAIN p |-> <<p[i][1] + d[1], p[i][2] + d[2]>>]
AreaIsShoelace == Shoe2(poly) = TwiceArea(tris)
AnyStart == \A k \in 0..(Len(poly) - 1) : Shoe2(Turn(poly, k)) = Shoe2(poly)
AnyDirection == Shoe2(Reverse(poly)) = Shoe2(poly)
AnyPlace == \A d \in {<<5, -3>>, <<-100, 40>>} : Shoe2(Shift(poly, d)) = Shoe2(poly)
Simple == \A i, j \in DOMAIN poly : i # j => poly[i] # poly[j]
=============================================================================
