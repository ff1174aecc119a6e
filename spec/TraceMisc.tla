----------------------------- MODULE TraceMisc -----------------------------
(***************************************************************************)
(* Checks recorded calls of the stateless helpers against Lagrange,        *)
(* Polygon's areas and Logger.  Verdicts as in TraceEspim.                 *)
(***************************************************************************)
EXTENDS Lagrange, Logger, IOUtils, Json, FiniteSets
PROP   == IOEnv.PROP
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Ops(k) == Traces[k].ops
Must(name, ok) == IF ok THEN {} ELSE {<<"FAIL", name>>}
Tol == "1/1000000000"
Floor == "1/1000000000000"

At2(op, i) == [v |-> Interp2(op.xn, op.yn, op.F, op.x[i], op.y[i]), s |-> Size2(op.xn, op.yn, op.F, op.x[i], op.y[i])]
At3(op, i) ==
    LET bx == BasisRow(op.xn, op.x[i])  by == BasisRow(op.yn, op.y[i])  bz == BasisRow(op.zn, op.z[i])
        ba == [p \in 1..Len(op.zn) |-> BasisAsIs(op.yn, op.zn, p, op.z[i])]
    IN  [v |-> Interp3(op.xn, op.yn, op.zn, op.F, op.x[i], op.y[i], op.z[i]),
         asis |-> Interp3AsIs(op.xn, op.yn, op.zn, op.F, op.x[i], op.y[i], op.z[i]),
         s |-> RMax(Size3(bx, by, bz, op.F), Size3(bx, by, ba, op.F))]
MaxF(op) == LET ab(q) == [i \in DOMAIN q |-> RAbs(q[i])] IN
            IF op.op = "l2" THEN RMaxSeq(ab(FlattenSeq(op.F))) ELSE RMaxSeq(ab(FlattenSeq(FlattenSeq(op.F))))
Within(o, v, s, f) == RNear(o, v, RAdd(RMul(Tol, s), RMul(Floor, f)))

AreaBound(op) == RSum([i \in DOMAIN op.x |-> RAbs(RMul(op.x[i], RSub(op.y[(i % Len(op.y)) + 1], op.y[((i + Len(op.y) - 2) % Len(op.y)) + 1])))])
Cross3(u, v) == {RSub(RMul(u[i], v[j]), RMul(u[j], v[i])) : i \in 1..Len(u), j \in 1..Len(u)}

Clauses(op, obs) ==
    CASE op.op \in {"l2bad", "l3bad"} -> Must("a field of the wrong shape is refused", obs.out # "ok")
      [] obs.out # "ok" -> {<<"FAIL", op.op \o " answered " \o obs.out>>}
      [] op.op = "l2" ->
            Must("one value per point", Len(obs.val) = Len(op.x)) \cup
            (IF Len(obs.val) # Len(op.x) THEN {} ELSE
             LET e == [i \in DOMAIN op.x |-> At2(op, i)] IN
             Must("interpolated values", \A i \in DOMAIN op.x : Within(obs.val[i], e[i].v, e[i].s, MaxF(op)))) \cup
            Must("inputs untouched", obs.pure)
      [] op.op = "l3" ->
            Must("one value per point", Len(obs.val) = Len(op.x)) \cup
            (IF Len(obs.val) # Len(op.x) THEN {} ELSE
             LET e == TLCEval([i \in DOMAIN op.x |-> At3(op, i)]) IN
             IF \A i \in DOMAIN op.x : Within(obs.val[i], e[i].v, e[i].s, MaxF(op)) THEN {}
             ELSE IF \A i \in DOMAIN op.x : Within(obs.val[i], e[i].asis, e[i].s, MaxF(op)) THEN {<<"KNOWN", "lagrange-3d-z">>}
             ELSE {<<"FAIL", "interpolated values">>}) \cup
            Must("inputs untouched", obs.pure)
      [] op.op = "area" ->
            Must("area of the polygon", RNear(obs.val, op.area, RMul(Tol, AreaBound(op)))) \cup
            Must("inputs untouched", obs.pure)
      [] op.op = "unit" ->
            LET big == RMaxSeq([i \in DOMAIN op.v |-> RAbs(op.v[i])]) IN
            Must("unit vector", /\ Len(obs.val) = Len(op.v)
                                /\ \A i \in DOMAIN obs.val : RIsNum(obs.val[i])
                                /\ RNear(RDot(obs.val, obs.val), "1", Tol)
                                /\ \A z \in Cross3(obs.val, op.v) : RLe(RAbs(z), RMul(Tol, big))
                                /\ RSign(RDot(obs.val, op.v)) = 1) \cup
            Must("inputs untouched", obs.pure)
      [] op.op = "centroid" ->
            LET n == Len(op.pts)
                last(j) == IF op.moved THEN RAdd(op.pts[n][j], op.by[j]) ELSE op.pts[n][j]
                mean(j) == RDiv(RAdd(RSum([i \in 1..(n - 1) |-> op.pts[i][j]]), last(j)), RInt(n))
                size == RMaxSeq([i \in 1..(3 * n) |-> RAbs(op.pts[((i - 1) \div 3) + 1][((i - 1) % 3) + 1])] \o
                                [j \in 1..3 |-> RAbs(last(j))])
            IN  Must("centroid of an element", Len(obs.val) = 3 /\ \A j \in 1..3 : RNear(obs.val[j], mean(j), RMul(Tol, size))) \cup
                Must("inputs untouched", obs.pure)
      [] op.op = "log" ->
            Must("returned message", obs.ret = Returned(op.fn, op.text)) \cup
            Must("printed message", obs.print = Printed(op.fn, op.text,
                    IF op.dflt \in {"level", "both"} THEN 0 ELSE op.level,
                    IF op.dflt \in {"silent", "both"} THEN FALSE ELSE op.silent))
      [] OTHER -> {<<"FAIL", "unknown operation">>}

Init == t \in DOMAIN Traces /\ l = 1
Next == /\ l <= Len(Ops(t))
        /\ LET op == Ops(t)[l]
               cl == TLCEval(Clauses(op, op.obs))
           IN  \A x \in cl : PrintT(x[1] \o "|" \o ToString(Traces[t].id) \o "|" \o ToString(l) \o "|" \o x[2])
        /\ l' = l + 1 /\ UNCHANGED t
RECURSIVE Steps(_, _)
Steps(a, b) == IF a > b THEN 0 ELSE IF a = b THEN Len(Ops(a)) + 1
               ELSE Steps(a, (a + b) \div 2) + Steps((a + b) \div 2 + 1, b)
AllConsumed == TLCGet("stats").distinct = Steps(1, Len(Traces))
=============================================================================
