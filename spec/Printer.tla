------------------------------ MODULE Printer -------------------------------
(***************************************************************************)
(* Printed programs: what a printout does when it is executed.             *)
(*                                                                         *)
(* A program is a sequence of statements                                   *)
(*   <<"let", name, e>>                name = e                            *)
(*   <<"decl", names>>                 cdef double names                   *)
(*   <<"inc">>                         c += 1                              *)
(*   <<"put", array, idx, op, e>>      array[idx] op e  (e may be "none")  *)
(*   <<"more", e>>                     a further term of the last put      *)
(*   <<"num", name, n>>, <<"title", name>>, <<"mark", txt>>, <<"of", e>>,  *)
(*   <<"head", txt>>, <<"bad", txt>>   comments, header, anything else     *)
(* Expressions are those of Expr, values tuples over the assignments used. *)
(***************************************************************************)
EXTENDS Expr, FiniteSets

CONSTANT Kinds              \* the assignments under which programs are run

(* names an implementation provides around the printed lines: offsets of    *)
(* this block, degrees of freedom per node in the assembly (Dof, more than *)
(* the printed block has), number of each node                             *)
Dof == 100
Row0 == 1000   Col0 == 2000   Pos0 == 3000
Nodes40 == 1..40
NodeNo(k) == (7 * k) % 41       \* numbers of the nodes: all different, in no order, none 0
Around ==
    ("row" :> ToString(Row0)) @@ ("col" :> ToString(Col0)) @@ ("pos" :> ToString(Pos0)) @@ ("dof" :> ToString(Dof)) @@
    [nm \in {"i" \o ToString(k) : k \in Nodes40} |-> ToString(NodeNo(CHOOSE k \in Nodes40 : nm = "i" \o ToString(k)))]

Start == [c |-> -1, env |-> [k \in Kinds |-> Around], lets |-> <<>>, decl |-> <<>>,
               puts |-> <<>>, num |-> <<>>, title |-> <<>>, used |-> {}, bad |-> {}]

Zeros == [k \in Kinds |-> "0"]
ValAll(st, e) == [k \in Kinds |-> Val(e, st.env[k], k)]
AddVal(a, b) == IF None(a) \/ None(b) THEN Spoil(<<a, b>>) ELSE RAdd(a, b)
Unknown(st, e, known) == NamesIn(e) \ (known \cup DOMAIN st.env[1] \cup {"c"})

Exec1(st, q, known) ==
    CASE q[1] = "let" ->
            [st EXCEPT !.lets = Append(@, q[2]), !.bad = @ \cup {<<"undefined", x>> : x \in Unknown(st, q[3], known)},
                       !.env = TLCEval([k \in Kinds |-> (q[2] :> Val(q[3], st.env[k], k)) @@ st.env[k]])]
      [] q[1] = "decl" -> [st EXCEPT !.decl = @ \o q[2]]
      [] q[1] = "inc" -> [st EXCEPT !.c = @ + 1]
      [] q[1] = "put" ->
            LET cenv == [st EXCEPT !.env = [k \in Kinds |-> ("c" :> ToString(st.c)) @@ st.env[k]]] IN
            [st EXCEPT !.puts = Append(@, TLCEval([arr |-> q[2],
                                                   idx |-> [i \in DOMAIN q[3] |-> Val(q[3][i], cenv.env[1], 1)],
                                                   op |-> q[4], e |-> q[5],
                                                   v |-> IF q[5][1] = "none" THEN Zeros ELSE ValAll(cenv, q[5])])),
                       !.bad = @ \cup (IF q[5][1] = "none" THEN {} ELSE {<<"undefined", x>> : x \in Unknown(st, q[5], known)})]
      [] q[1] = "more" ->
            IF st.puts = <<>> THEN [st EXCEPT !.bad = @ \cup {<<"stray", "line">>}]
            ELSE [st EXCEPT !.puts[Len(st.puts)].v = LET w == ValAll(st, q[2]) IN TLCEval([k \in Kinds |-> AddVal(@[k], w[k])]),
                            !.bad = @ \cup {<<"undefined", x>> : x \in Unknown(st, q[2], known)}]
      [] q[1] = "num" -> [st EXCEPT !.num = Append(@, <<q[2], q[3]>>)]
      [] q[1] = "title" -> [st EXCEPT !.title = Append(@, q[2])]
      [] q[1] \in {"mark", "of", "head"} -> st
      [] OTHER -> [st EXCEPT !.bad = @ \cup {<<"not understood", q[2]>>}]

RECURSIVE ExecFrom(_, _, _, _)
ExecFrom(st, prog, i, known) == IF i > Len(prog) THEN st ELSE ExecFrom(TLCEval(Exec1(st, prog[i], known)), prog, i + 1, known)
Exec(prog, known) == ExecFrom(Start, prog, 1, known)

-----------------------------------------------------------------------------
(* What a printout denotes: a sequence of [r, c, op, v, e]                 *)
Int1(x) == IF None(x) THEN -1 ELSE IF RIsInt(x) THEN RToInt(x) ELSE -1

(* row or column of the matrix at an index of the assembly                 *)
Undo(x, dpn, off) ==
    IF dpn = 0 THEN x - off
    ELSE LET ks == {k \in Nodes40 : NodeNo(k) = x \div Dof} IN
         IF x < 0 \/ x % Dof >= dpn \/ ks = {} THEN -1 ELSE (((CHOOSE k \in ks : TRUE) - 1) * dpn) + (x % Dof)
DenseTerms(st, name, dpn) ==
    [i \in DOMAIN st.puts |-> LET p == st.puts[i] IN
        [ok |-> p.arr = name /\ Len(p.idx) = 2, r |-> Undo(Int1(p.idx[1]), dpn, 0), c |-> IF Len(p.idx) = 2 THEN Undo(Int1(p.idx[2]), dpn, 0) ELSE -1,
         op |-> p.op, v |-> p.v, e |-> p.e]]
ArrayTerms(st, name, nr, nc, order) ==
    [i \in DOMAIN st.puts |-> LET p == st.puts[i]  k == Int1(p.idx[1]) - Pos0 IN
        [ok |-> p.arr = name /\ Len(p.idx) = 1,
         r |-> IF k < 0 THEN -1 ELSE IF order = "C" THEN k \div nc ELSE k % nr,
         c |-> IF k < 0 THEN -1 ELSE IF order = "C" THEN k % nc ELSE k \div nr,
         op |-> p.op, v |-> p.v, e |-> p.e]]
(* triplets: three arrays written at the running index                     *)
SparseTerms(st, name, dpn) ==
    LET which(s) == {i \in DOMAIN st.puts : st.puts[i].arr = name \o s}
        slot(i) == IF Len(st.puts[i].idx) = 1 THEN Int1(st.puts[i].idx[1]) ELSE -1
        at(s, k) == {i \in which(s) : slot(i) = k}
        slots == 0..st.c
        one(s, k) == st.puts[CHOOSE i \in at(s, k) : TRUE]
        shaped == /\ \A i \in DOMAIN st.puts : i \in which("r") \cup which("c") \cup which("v") /\ slot(i) \in slots
                  /\ \A k \in slots : \A s \in {"r", "c", "v"} : Cardinality(at(s, k)) = 1
                  /\ \A i \in which("r") \cup which("c") : st.puts[i].op = "="
    IN  IF ~shaped THEN << [ok |-> FALSE, r |-> -1, c |-> -1, op |-> "", v |-> Zeros, e |-> <<"none">>] >>
        ELSE [k1 \in 1..(st.c + 1) |->
                LET k == k1 - 1 IN
                [ok |-> TRUE, r |-> Undo(Int1(one("r", k).v[1]), dpn, Row0), c |-> Undo(Int1(one("c", k).v[1]), dpn, Col0),
                 op |-> one("v", k).op, v |-> one("v", k).v, e |-> one("v", k).e]]

(* The terms denote matrix m (rows of expressions) restricted to keep(i, j) *)
Places(terms) == {<<terms[i].r, terms[i].c>> : i \in DOMAIN terms}
InBounds(terms, m) == \A i \in DOMAIN terms : /\ terms[i].ok /\ terms[i].r + 1 \in DOMAIN m
                                              /\ terms[i].c + 1 \in DOMAIN m[1]
OncePerPlace(terms) == Cardinality(Places(terms)) = Len(terms)
EntryVal(m, r, c, k) == Val(m[r + 1][c + 1], NoNames, k)
ValuesRight(terms, m) == \A i \in DOMAIN terms : \A k \in Kinds :
    Agrees(EntryVal(m, terms[i].r, terms[i].c, k), terms[i].v[k])
NoneMissing(terms, m, keep(_, _)) == \A r \in DOMAIN m, c \in DOMAIN m[1] :
    (keep(r, c) /\ <<r - 1, c - 1>> \notin Places(terms)) =>
        \A k \in Kinds : EntryVal(m, r - 1, c - 1, k) \in {"0", "undef", "big"}
NothingElse(terms, m, keep(_, _)) == \A i \in DOMAIN terms :
    keep(terms[i].r + 1, terms[i].c + 1) /\ m[terms[i].r + 1][terms[i].c + 1] # <<"n", "0", "0">>
All(r, c) == TRUE
Upper(r, c) == r <= c

-----------------------------------------------------------------------------
(* Reference printers: the layouts, for matrices of expressions            *)
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
N(k) == <<"n", ToString(k), ToString(k)>>
V(nm) == <<"v", nm, 0>>
Sum2(a, b) == <<"b", "+", a, b>>
NodeIndex(k, dpn) == Sum2(<<"b", "*", V("i" \o ToString((k \div dpn) + 1)), V("dof")>>, N(k % dpn))
IsZero(e) == e = <<"n", "0", "0">>
Cells(m) == [k \in 1..(Len(m) * Len(m[1])) |-> <<(k - 1) \div Len(m[1]), (k - 1) % Len(m[1])>>]
Ent(m, p) == m[p[1] + 1][p[2] + 1]
RefSparse(m, name, dpn, sym) ==
    LET cells == SelectSeq(Cells(m), LAMBDA p : ~IsZero(Ent(m, p)) /\ (sym => p[1] <= p[2]))
        at(base, k) == IF dpn = 0 THEN Sum2(V(base), N(k)) ELSE NodeIndex(k, dpn)
    IN  <<<<"title", name>>, <<"num", name, Len(cells)>>>> \o
        Cat([i \in DOMAIN cells |-> LET p == cells[i] IN
             << <<"inc">>, <<"put", name \o "r", <<V("c")>>, "=", at("row", p[1])>>,
                <<"put", name \o "c", <<V("c")>>, "=", at("col", p[2])>>,
                <<"put", name \o "v", <<V("c")>>, "+=", Ent(m, p)>> >>])
RefDense(m, name, dpn) ==
    LET cells == SelectSeq(Cells(m), LAMBDA p : ~IsZero(Ent(m, p)))
        at(k) == IF dpn = 0 THEN N(k) ELSE NodeIndex(k, dpn)
    IN  <<<<"title", name>>, <<"num", name, Len(cells)>>>> \o
        [i \in DOMAIN cells |-> <<"put", name, <<at(cells[i][1]), at(cells[i][2])>>, "+=", Ent(m, cells[i])>>]
RefArray(m, name, order, op) ==
    LET cells == SelectSeq(Cells(m), LAMBDA p : ~IsZero(Ent(m, p)))
        at(p) == IF order = "C" THEN p[1] * Len(m[1]) + p[2] ELSE p[2] * Len(m) + p[1]
    IN  <<<<"title", name>>, <<"num", name, Len(cells)>>>> \o
        [i \in DOMAIN cells |-> <<"put", name, <<Sum2(V("pos"), N(at(cells[i])))>>, op, Ent(m, cells[i])>>]
=============================================================================
