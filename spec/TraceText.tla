----------------------------- MODULE TraceText ------------------------------
(***************************************************************************)
(* Checks recorded power expansions (C24) and printouts (C25 to C28)       *)
(* against Expr, Printer and Files.  Verdicts as in TraceEspim.            *)
(***************************************************************************)
EXTENDS Printer, Files, IOUtils, Json

PROP   == IOEnv.PROP
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, st      \* execution, next operation, working directory and files
Ops(k) == Traces[k].ops
Must(name, ok) == IF ok THEN {} ELSE {<<"FAIL", name>>}

-----------------------------------------------------------------------------
(* the driver parsed what the specification spelled                        *)
RECURSIVE Like(_, _)
Like(a, b) ==
    /\ a[1] = b[1]
    /\ CASE a[1] = "n" -> REq(a[2], b[2])
         [] a[1] = "v" -> a[2] = b[2]
         [] a[1] = "u" -> a[2] = b[2] /\ Like(a[3], b[3])
         [] a[1] = "b" -> a[2] = b[2] /\ Like(a[3], b[3]) /\ Like(a[4], b[4])
         [] a[1] = "p" -> a[4] = b[4] /\ Like(a[2], b[2]) /\ Like(a[3], b[3])
         [] a[1] = "c" -> a[2] = b[2] /\ Len(a[4]) = Len(b[4]) /\ \A i \in DOMAIN a[4] : Like(a[4][i], b[4][i])
         [] a[1] = "i" -> Like(a[2], b[2]) /\ Len(a[3]) = Len(b[3]) /\ \A i \in DOMAIN a[3] : Like(a[3][i], b[3][i])
         [] a[1] = "a" -> a[3] = b[3] /\ Like(a[2], b[2])
         [] a[1] = "q" -> \A i \in 2..4 : Like(a[i], b[i])
         [] OTHER -> FALSE

Same(a, b) == \A k \in 1..4 : Agrees(Val(a, NoNames, k), Val(b, NoNames, k))
C24(op, obs) ==
    IF obs.out # "ok" THEN {<<"FAIL", "expansion answered " \o obs.out>>}
    ELSE IF IsBad(obs.after) THEN {<<"FAIL", "result is not an expression">>}
    ELSE Must("value of the expression", Same(obs.before, obs.after)) \cup
         Must("no integer power left", ~HasLiteralPower(obs.after)) \cup
         Must("expressions without powers unchanged", HasPower(obs.before) \/ obs.text = op.text)

-----------------------------------------------------------------------------
SetOf(q) == {q[i] : i \in DOMAIN q}
OnceEach(q, S) == SetOf(q) = S /\ Len(q) = Cardinality(S)
Title(op) == op.name \o (IF op.sufix = "" THEN "" ELSE "_" \o op.sufix)

PrintClauses(op, obs) ==
    IF obs.out # "ok" THEN {<<"FAIL", op.kind \o " printer answered " \o obs.out>>}
    ELSE
    LET m == obs.m
        known == UNION {NamesIn(m[i][j]) : i \in DOMAIN m, j \in DOMAIN m[1]} \cup SetOf(obs.keynames)
        x == Exec(obs.prog, known)
        terms == CASE op.kind = "dense" -> DenseTerms(x, op.name, op.dpn)
                   [] op.kind = "sparse" -> SparseTerms(x, op.name, op.dpn)
                   [] OTHER -> ArrayTerms(x, op.name, Len(m), Len(m[1]), op.order)
        keep(r, c) == op.sym => r <= c
        wantop == IF op.kind = "array" THEN op.aop ELSE "+="
    IN
    Must("every line is understood and every name defined before use", x.bad = {}) \cup
    Must("announced under its name", SetOf(x.title) = {Title(op)}) \cup
    Must("announced number of terms", x.num = << <<Title(op), Len(terms)>> >>) \cup
    (IF ~InBounds(terms, m) THEN {<<"FAIL", "entries at places of the matrix">>}
     ELSE Must("every entry once", OncePerPlace(terms)) \cup
          Must("values of the entries", ValuesRight(terms, m)) \cup
          Must("no entry missing", NoneMissing(terms, m, keep)) \cup
          Must("nothing but entries", NothingElse(terms, m, keep)) \cup
          Must("operator", \A i \in DOMAIN terms : terms[i].op = wantop)) \cup
    Must("powers expanded", (op.pbm /\ ~op.hascollect) => \A i \in DOMAIN terms : ~(terms[i].e[1] # "none" /\ HasLiteralPower(terms[i].e))) \cup
    Must("temporaries declared", IF op.cse THEN OnceEach(x.decl, SetOf(x.lets)) /\ Len(x.lets) = Cardinality(SetOf(x.lets)) ELSE x.decl = <<>>) \cup
    Must("matrix left unmodified", obs.pure)

FileClauses(op, obs, new) ==
    (IF op.op = "print" /\ obs.out # "ok" THEN {<<"FAIL", op.kind \o " printer answered " \o obs.out>>} ELSE {}) \cup
    Must("files in the working directories",
         SetOf(obs.files) = {<<k[1], k[2], new.files[k]>> : k \in DOMAIN new.files})

Text(obs) == IF "text" \in DOMAIN obs THEN obs.text ELSE ""
Clauses(op, obs) ==
    CASE PROP = "C24" -> C24(op, obs)
      [] PROP = "C28" -> FileClauses(op, obs, Do(st, op, Text(obs)))
      [] OTHER -> PrintClauses(op, obs)

Init == t \in DOMAIN Traces /\ l = 1 /\ st = NoFiles
Next == /\ l <= Len(Ops(t))
        /\ LET op == Ops(t)[l]
               cl == TLCEval(Clauses(op, op.obs))
           IN  /\ (PROP = "C24" /\ op.obs.out = "ok") => Assert(Like(op.e, op.obs.before), <<"spelling misread", t, l, op.text>>)
               /\ \A x \in cl : PrintT(x[1] \o "|" \o ToString(Traces[t].id) \o "|" \o ToString(l) \o "|" \o x[2])
               /\ st' = IF PROP = "C28" THEN Do(st, op, Text(op.obs)) ELSE st
        /\ l' = l + 1 /\ UNCHANGED t
RECURSIVE Steps(_, _)
Steps(a, b) == IF a > b THEN 0 ELSE IF a = b THEN Len(Ops(a)) + 1
               ELSE Steps(a, (a + b) \div 2) + Steps((a + b) \div 2 + 1, b)
AllConsumed == TLCGet("stats").distinct = Steps(1, Len(Traces))
=============================================================================
