------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* The library seen from its user: a session with several meshes and       *)
(* several matrices.  An operation is a record; Valid says when the user   *)
(* may issue it, Outcome what the library must answer, Step what it does   *)
(* to the abstract state.  The model checker explores Valid operations     *)
(* (MCSession), behaviours are generated from it (Gen) and replayed on the *)
(* code, and the recorded answers are checked against it (TraceEspim).     *)
(***************************************************************************)
EXTENDS Mesh

None == "none"          \* no property assigned

EmptySession == [objs |-> <<>>, mats |-> <<>>]

-----------------------------------------------------------------------------
(* op.xyz is a sequence <<id, x, y, z>>, op.elems a sequence <<eid, a, b, c>> *)
FunOfNodes(ns) == [v \in {ns[i][1] : i \in DOMAIN ns} |->
                     LET i == CHOOSE k \in DOMAIN ns : ns[k][1] = v IN <<ns[i][2], ns[i][3], ns[i][4]>>]
SeqOfElems(es) == [i \in DOMAIN es |-> [eid |-> es[i][1], n |-> <<es[i][2], es[i][3], es[i][4]>>]]

NewObj(op) ==
    LET xyz == FunOfNodes(op.xyz)  elems == SeqOfElems(op.elems) IN
    [xyz |-> xyz, elems |-> elems,
     np |-> [v \in DOMAIN xyz |-> None],
     ep |-> [t \in {elems[i].eid : i \in DOMAIN elems} |-> None],
     geo |-> "none",        \* stored domains: none, fresh or stale
     num |-> FALSE]         \* nodes are numbered

Obj(s, op)  == s.objs[op.o]
MeshOfObj(ob) == [xyz |-> ob.xyz, elems |-> ob.elems]
UsedNodes(ob) == UNION {Verts(ob.elems[i]) : i \in DOMAIN ob.elems}
Lacking(ob, pfn) ==
    IF pfn THEN \E v \in UsedNodes(ob) : ob.np[v] = None
           ELSE \E t \in DOMAIN ob.ep : ob.ep[t] = None
Ready(ob, pfn) == ob.geo = "fresh" /\ ob.num /\ ~Lacking(ob, pfn)

Set(seq, i, v) == IF i = Len(seq) + 1 THEN Append(seq, v) ELSE [seq EXCEPT ![i] = v]

Put(f, i, v) == (i :> v) @@ f
Top(f) == IF DOMAIN f = {} THEN 0 ELSE CHOOSE i \in DOMAIN f : \A j \in DOMAIN f : j <= i

KnownMethods == {"cell-based", "cell-based-no-smoothing", "edge-based"}
Foreign(op) == "foreign" \in DOMAIN op /\ op.foreign # "no"   \* holds another element type

Valid(s, op) ==
    CASE op.op = "read" -> op.o \in 1..(Len(s.objs) + 1)
      [] op.op \in {"setnp", "setep"} -> op.o \in DOMAIN s.objs
      [] op.op = "move" -> op.o \in DOMAIN s.objs
      [] op.op = "k0" -> op.o \in DOMAIN s.objs /\ op.h \in Nat
      [] op.op = "start" -> op.o \in DOMAIN s.objs /\ op.h \in Nat
      [] op.op = "k0s" -> /\ op.o \in DOMAIN s.objs /\ op.h \in DOMAIN s.mats
                          /\ op.method \in KnownMethods => Ready(s.objs[op.o], op.pfn)
                          /\ s.mats[op.h].nodes = DOMAIN s.objs[op.o].xyz
      [] op.op = "kG" -> /\ op.o \in DOMAIN s.objs /\ Ready(s.objs[op.o], op.pfn)
                         /\ op.h \in Nat
      [] op.op = "mids" -> op.o \in DOMAIN s.objs
      [] op.op \in {"live", "cmp"} -> TRUE
      [] OTHER -> FALSE

Outcome(s, op) ==
    CASE op.op = "read" -> IF Foreign(op) THEN "NotImplementedError" ELSE "ok"
      [] op.op = "k0" -> IF Lacking(Obj(s, op), op.pfn) THEN "ValueError"
                         ELSE IF ~Manifold(Obj(s, op).elems) THEN "NotImplementedError"
                         ELSE "ok"
      [] op.op = "k0s" -> IF op.method \in KnownMethods THEN "ok" ELSE "ValueError"
      [] OTHER -> "ok"

(* asg is a sequence of <<id, property name>>                              *)
Assign(f, asg) == [v \in DOMAIN f |->
    LET is == {i \in DOMAIN asg : asg[i][1] = v}
    IN  IF is = {} THEN f[v] ELSE asg[CHOOSE i \in is : \A j \in is : j <= i][2]]

Step(s, op) ==
    IF Outcome(s, op) # "ok" THEN
        \* a refused mesh may have been prepared in part: its stored geometry is no longer valid
        IF op.op = "k0" /\ Outcome(s, op) = "NotImplementedError"
        THEN [s EXCEPT !.objs[op.o].geo = "stale"] ELSE s
    ELSE
    CASE op.op = "read" -> [s EXCEPT !.objs = Set(@, op.o, NewObj(op))]
      [] op.op = "setnp" -> [s EXCEPT !.objs[op.o].np = Assign(@, op.asg)]
      [] op.op = "setep" -> [s EXCEPT !.objs[op.o].ep = Assign(@, op.asg)]
      [] op.op = "move" -> [s EXCEPT !.objs[op.o].xyz[op.node] = <<op.to[1], op.to[2], op.to[3]>>,
                                     !.objs[op.o].geo = IF @ = "none" THEN "none" ELSE "stale"]
      [] op.op = "k0" -> [s EXCEPT !.objs[op.o].geo = "fresh", !.objs[op.o].num = TRUE,
                                   !.mats = Put(@, op.h, [nodes |-> DOMAIN s.objs[op.o].xyz, terms |-> <<"K0">>])]
      [] op.op = "start" -> [s EXCEPT !.mats = Put(@, op.h, [nodes |-> DOMAIN s.objs[op.o].xyz, terms |-> <<"start">>])]
      [] op.op = "k0s" -> [s EXCEPT !.mats[op.h].terms = Append(@, op.method)]
      [] op.op = "kG" -> [s EXCEPT !.mats = Put(@, op.h, [nodes |-> DOMAIN s.objs[op.o].xyz, terms |-> <<"KG">>])]
      [] OTHER -> s

-----------------------------------------------------------------------------
(* What must hold of every reachable session (MCSession)                   *)
GeoNeedsNumbers(s) == \A i \in DOMAIN s.objs : s.objs[i].geo = "fresh" => s.objs[i].num
=============================================================================
