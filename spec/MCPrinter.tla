----------------------------- MODULE MCPrinter ------------------------------
(* Every zero pattern of small matrices and every layout: executing the    *)
(* reference printout gives the matrix back, term by term.                 *)
EXTENDS Printer
CONSTANTS MaxR, MaxC
VARIABLES m, dpn, sym, order
Pool == << <<"n", "0", "0">>, <<"v", "x", 11>>, <<"b", "*", <<"v", "x", 11>>, <<"v", "y", 5>> >> >>
Init == /\ \E nr \in 1..MaxR, nc \in 1..MaxC : \E f \in [(1..nr) \X (1..nc) -> {1, 2, 3}] :
              m = [i \in 1..nr |-> [j \in 1..nc |-> Pool[f[<<i, j>>]]]]
        /\ dpn \in 0..3 /\ sym \in BOOLEAN /\ order \in {"C", "F"}
Next == UNCHANGED <<m, dpn, sym, order>>
Known == {"x", "y"}
Right(st, terms, keep(_, _)) ==
    /\ st.bad = {} /\ InBounds(terms, m) /\ OncePerPlace(terms) /\ ValuesRight(terms, m)
    /\ NoneMissing(terms, m, keep) /\ NothingElse(terms, m, keep)
    /\ st.num[1][2] = Len(terms)
SparseDenotes == LET st == Exec(RefSparse(m, "k0", dpn, sym), Known)
                     t == SparseTerms(st, "k0", dpn)
                 IN  IF sym THEN Right(st, t, Upper) ELSE Right(st, t, All)
DenseDenotes == LET st == Exec(RefDense(m, "k0", dpn), Known) IN Right(st, DenseTerms(st, "k0", dpn), All)
ArrayDenotes == LET st == Exec(RefArray(m, "k0", order, "+="), Known)
                IN  Right(st, ArrayTerms(st, "k0", Len(m), Len(m[1]), order), All)
=============================================================================
