------------------------------- MODULE Cover --------------------------------
(***************************************************************************)
(* Every transition of Session, up to the abstraction Abs, on small meshes *)
(* as a behaviour for replay: TLC visits the abstract states breadth first *)
(* and writes, for every operation possible in each of them, the shortest  *)
(* history that leads there, the operation, and a closing that compares    *)
(* the first mesh with one freshly read from the data it has by then.      *)
(* Environment: PROP, SEED, OUT, DEEP ("1": every pair of consecutive      *)
(* operations, too).                                                       *)
(***************************************************************************)
EXTENDS Session, Rng, IOUtils, Json

PROP == IOEnv.PROP
SEED == atoi(IOEnv.SEED)
OUT  == IOEnv.OUT
DEEP == IOEnv.DEEP = "1"
MaxLen == IF DEEP THEN 9 ELSE 10

VARIABLES s, hist, trail        \* session, operations, their numbers
vars == <<s, hist, trail>>

-----------------------------------------------------------------------------
(* the small world                                                         *)
Labels == << <<1, 2, 3, 4, 5>>, <<12, 1, 112, 2, 11>>, <<44, 1007, 3, 7, 70000001>>, <<5, 4, 3, 2, 1>> >>
I == Labels[1 + (SEED % 4)]
Node(k) == LET p == << <<"0", "0", "0">>, <<"1.25", "0.0625", "0">>, <<"0.125", "1", "0">>, <<"1", "1.5", "0">>, <<"2.25", "1.125", "0">> >>[k]
           IN  <<I[k], p[1], p[2], p[3]>>
Nodes4 == [k \in 1..4 |-> Node(k)]
Nodes5 == [k \in 1..5 |-> Node(k)]
Read(o, via, ns, es, more) == [op |-> "read", o |-> o, via |-> via, fmt |-> "small", cp |-> 0, file |-> "f" \o ToString(o),
                               xyz |-> ns, elems |-> [k \in DOMAIN es |-> <<10 * k + 1, I[es[k][1]], I[es[k][2]], I[es[k][3]]>>]] @@ more
Two   == << <<1, 2, 3>>, <<3, 2, 4>> >>
Three == << <<1, 2, 3>>, <<4, 2, 3>>, <<5, 4, 2>> >>
Fin   == << <<1, 2, 3>>, <<3, 2, 4>>, <<2, 3, 5>> >>
None0 == [zz |-> 0]

P(nm, a, h, k) == [name |-> nm,
    A |-> << <<RMul(a, "5"), RMul(a, "1"), RMul(a, "0.5")>>, <<RMul(a, "1"), RMul(a, "4"), RMul(a, "-0.25")>>, <<RMul(a, "0.5"), RMul(a, "-0.25"), RMul(a, "2")>> >>,
    B |-> << <<RMul(a, "0.25"), "0", RMul(a, "0.125")>>, <<"0", RMul(a, "-0.5"), "0">>, <<RMul(a, "0.125"), "0", RMul(a, "0.25")>> >>,
    D |-> << <<RMul(a, "2"), RMul(a, "0.5"), "0">>, <<RMul(a, "0.5"), RMul(a, "3"), RMul(a, "0.25")>>, <<"0", RMul(a, "0.25"), RMul(a, "1")>> >>,
    E |-> << <<RMul(a, "3"), RMul(a, "0.5")>>, <<RMul(a, "0.5"), RMul(a, "2")>> >>,
    h |-> h, k13 |-> k, k23 |-> "0.75"]
Pool == <<P("p1", "1", "0.5", "5/6"), P("p2", "3", "0.25", "1"), P("p3", "0.5", "1", "2/3")>>

(* the operations the user may choose from; assignments go to the nodes and triangles there are *)
All(f, p) == LET q == SetToSeq(DOMAIN f) IN [k \in DOMAIN q |-> <<q[k], p>>]
One(f, p) == LET v == CHOOSE x \in DOMAIN f : \A y \in DOMAIN f : x <= y IN << <<v, p>> >>
SetN(o, asg, how) == [op |-> "setnp", o |-> o, asg |-> asg, how |-> how]
SetE(o, asg, how) == [op |-> "setep", o |-> o, asg |-> asg, how |-> how]
Vec5(ob) == LET q == SetToSeq(DOMAIN ob.xyz) IN
    [k \in DOMAIN q |-> <<q[k], [j \in 1..5 |-> RDiv(RInt(((k * 37 + j * 11 + SEED) % 41) - 20), "8")]>>]
Shear(o, h, pfn, m, mfa) == [op |-> "k0s", o |-> o, h |-> h, pfn |-> pfn, method |-> m, alpha |-> "0.25", mfa |-> mfa, dflt |-> FALSE]
KG(o, h, pfn, ob) == [op |-> "kG", o |-> o, h |-> h, pfn |-> pfn, d |-> Vec5(ob), kind |-> "rand"]
Move(o, ob, how) ==
    LET v == I[4]  p == ob.xyz[v] IN
    [op |-> "move", o |-> o, node |-> v, to |-> <<IF REq(p[1], "1") THEN "1.25" ELSE "1", p[2], p[3]>>, inplace |-> how]

Menu(k) ==      \* operation number k in state s, as a sequence (empty: there is none)
    LET has(o) == o \in DOMAIN s.objs  ob == s.objs IN
    CASE k = 1 -> <<Read(1, "nastran", Nodes4, Two, None0)>>
      [] k = 2 -> <<Read(1, "nastran", Nodes5, Fin, None0)>>
      [] k = 3 -> <<Read(1, "nastran", Nodes5, Two, None0)>>           \* node 5 belongs to no triangle
      [] k = 4 -> <<Read(1, "nastran", Nodes4, Two, [foreign |-> "CQUAD4", at |-> "last"])>>
      [] k \in 5..20 /\ ~has(1) -> <<>>
      [] k = 5 -> <<SetN(1, All(ob[1].np, "p1"), "share")>>
      [] k = 6 -> <<SetE(1, All(ob[1].ep, "p1"), "own")>>
      [] k = 7 -> <<SetN(1, One(ob[1].np, None), "share")>>
      [] k = 8 -> <<SetE(1, One(ob[1].ep, None), "share")>>
      [] k = 9 -> <<SetN(1, One(ob[1].np, "p2"), "own")>>
      [] k = 10 -> <<SetE(1, One(ob[1].ep, "p3"), "inplace")>>
      [] k = 11 -> <<Move(1, ob[1], TRUE)>>
      [] k = 12 -> <<Move(1, ob[1], FALSE)>>
      [] k = 13 -> <<[op |-> "k0", o |-> 1, pfn |-> TRUE, h |-> 1]>>
      [] k = 14 -> <<[op |-> "k0", o |-> 1, pfn |-> FALSE, h |-> 1]>>
      [] k = 15 -> <<[op |-> "start", o |-> 1, h |-> 1, kind |-> "rand"]>>
      [] k = 16 -> <<Shear(1, 1, TRUE, "cell-based", FALSE)>>
      [] k = 17 -> <<Shear(1, 1, FALSE, "cell-based-no-smoothing", TRUE)>>
      [] k = 18 -> <<Shear(1, 1, FALSE, "edge-based", FALSE)>>
      [] k = 19 -> <<Shear(1, 1, TRUE, "edge_based", FALSE)>>
      [] k = 20 -> <<KG(1, 2, FALSE, ob[1])>>
      [] k = 21 -> <<Read(2, "nastran", Nodes5, Three, None0)>>
      [] k \in 22..26 /\ ~has(2) -> <<>>
      [] k = 22 -> <<SetN(2, All(ob[2].np, "p1"), "share")>>
      [] k = 23 -> <<[op |-> "k0", o |-> 2, pfn |-> TRUE, h |-> 3]>>
      [] k = 24 -> <<Move(2, ob[2], TRUE)>>
      [] k = 25 -> <<Shear(2, 3, TRUE, "edge-based", TRUE)>>
      [] OTHER -> <<KG(2, 4, TRUE, ob[2])>>
K == 26
Known(q) == IF q.op = "move" THEN q.node \in DOMAIN s.objs[q.o].xyz ELSE TRUE

-----------------------------------------------------------------------------
Abs ==
    LET A(ob) == <<ob.geo, ob.num, Lacking(ob, TRUE), Lacking(ob, FALSE), Manifold(ob.elems), UsedNodes(ob) = DOMAIN ob.xyz>>
        H(h) == IF h \notin DOMAIN s.mats THEN "none" ELSE <<Head(s.mats[h].terms), Len(s.mats[h].terms) > 1>>
    IN  << [k \in DOMAIN s.objs |-> IF k = 1 THEN A(s.objs[1]) ELSE <<s.objs[2].geo, Lacking(s.objs[2], TRUE)>>], H(1), 3 \in DOMAIN s.mats>>
view == IF DEEP THEN <<Abs, IF trail = <<>> THEN 0 ELSE trail[Len(trail)]>> ELSE Abs

Init == s = EmptySession /\ hist = <<>> /\ trail = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E k \in 1..K : LET q == Menu(k) IN
              /\ q # <<>>
              /\ Known(q[1])
              /\ Valid(s, q[1])
              /\ s' = Step(s, q[1])
              /\ hist' = Append(hist, q[1])
              /\ trail' = Append(trail, k)

(* compare with a mesh that was just read                                  *)
Closing(z) ==
    IF DOMAIN z.objs = {} THEN <<>> ELSE
    LET ob == z.objs[1]
        f == Len(z.objs) + 1
        ns == SetToSeq(DOMAIN ob.xyz)
        ts == SetToSeq(DOMAIN ob.ep)
        pfn == IF Lacking(ob, TRUE) THEN FALSE ELSE IF Lacking(ob, FALSE) THEN TRUE ELSE Len(trail') % 2 = 0
        three(o, h) == <<[op |-> "k0", o |-> o, pfn |-> pfn, h |-> h], Shear(o, h, pfn, "edge-based", FALSE), KG(o, h + 1, pfn, ob)>>
    IN  IF (Lacking(ob, TRUE) /\ Lacking(ob, FALSE)) \/ ~Manifold(ob.elems) THEN <<[op |-> "live"]>>
        ELSE three(1, 11) \o
             << [op |-> "read", o |-> f, via |-> "nastran", fmt |-> "large", cp |-> 0, file |-> "twin",
                 xyz |-> [k \in DOMAIN ns |-> <<ns[k], ob.xyz[ns[k]][1], ob.xyz[ns[k]][2], ob.xyz[ns[k]][3]>>],
                 elems |-> [k \in DOMAIN ob.elems |-> <<ob.elems[k].eid, ob.elems[k].n[1], ob.elems[k].n[2], ob.elems[k].n[3]>>]],
                SetN(f, [k \in DOMAIN ns |-> <<ns[k], ob.np[ns[k]]>>], "share"), SetE(f, [k \in DOMAIN ts |-> <<ts[k], ob.ep[ts[k]]>>], "share") >> \o
             three(f, 13) \o
             << [op |-> "cmp", kind |-> "equal", a |-> 11, b |-> 13], [op |-> "cmp", kind |-> "equal", a |-> 12, b |-> 14], [op |-> "live"] >>

RECURSIVE Spell(_)
Spell(q) == IF q = <<>> THEN "" ELSE Spell(Front(q)) \o "-" \o ToString(Last(q))
Write == JsonSerialize(OUT \o "/t" \o Spell(trail') \o ".json", [id |-> 0, prop |-> PROP, pool |-> Pool, ops |-> hist' \o Closing(s')])
=============================================================================
