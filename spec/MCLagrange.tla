----------------------------- MODULE MCLagrange -----------------------------
(* Exhaustive over all listings of up to MaxX, MaxY, MaxZ distinct control *)
(* points from a small grid: interpolation is exact on its tensor space.   *)
EXTENDS Lagrange, FiniteSets
CONSTANTS MaxX, MaxY, MaxZ
VARIABLES xs, ys, zs
Grid == {"0", "1", "3", "-2"}
Init == xs \in {<<g>> : g \in Grid} /\ ys = <<"1">> /\ zs = <<"3">>
Add(q, m) == IF Len(q) >= m THEN {} ELSE {Append(q, g) : g \in {h \in Grid : \A i \in DOMAIN q : q[i] # h}}
Next == \/ xs' \in Add(xs, MaxX) /\ UNCHANGED <<ys, zs>>
        \/ ys' \in Add(ys, MaxY) /\ UNCHANGED <<xs, zs>>
        \/ zs' \in Add(zs, MaxZ) /\ UNCHANGED <<xs, ys>>
Pts == {"1/2", "-1", "4", "1"}
F3(f(_, _, _)) == [i \in DOMAIN xs |-> [j \in DOMAIN ys |-> [k \in DOMAIN zs |-> f(xs[i], ys[j], zs[k])]]]
F2(f(_, _)) == [i \in DOMAIN xs |-> [j \in DOMAIN ys |-> f(xs[i], ys[j])]]
Exact == \A x \in Pts, y \in Pts, z \in {"1/2", "-3"} :
    \A a \in 0..(Len(xs) - 1), b \in 0..(Len(ys) - 1), c \in 0..(Len(zs) - 1) :
       LET g(p, q, r) == RMul(Pow(p, a), RMul(Pow(q, b), Pow(r, c)))
       IN  Interp3(xs, ys, zs, F3(g), x, y, z) = g(x, y, z)
Exact2 == \A x \in Pts, y \in Pts : \A a \in 0..(Len(xs) - 1), b \in 0..(Len(ys) - 1) :
       LET g(p, q) == RMul(Pow(p, a), Pow(q, b)) IN Interp2(xs, ys, F2(g), x, y) = g(x, y)
Nodal == \A i \in DOMAIN xs, j \in DOMAIN ys : \A k \in DOMAIN zs :
    LET f == F3(LAMBDA p, q, r : RAdd(RSq(RSq(p)), RMul(q, RSub(r, "7"))))
    IN  Interp3(xs, ys, zs, f, xs[i], ys[j], zs[k]) = f[i][j][k]
ListingOrder == \A x \in Pts, y \in Pts :
    LET g(p, q) == RAdd(RSq(RSq(p)), RMul(p, RSq(RSq(q)))) IN
    Interp2(xs, ys, F2(g), x, y) =
       Interp2(Reverse(xs), ys, Reverse(F2(g)), x, y)
=============================================================================
