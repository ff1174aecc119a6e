------------------------------ MODULE MCFiles -------------------------------
(* Every sequence of prints, directory changes and foreign writes.         *)
EXTENDS Files, Integers
CONSTANT Sufs
VARIABLES st, last
vars == <<st, last>>
Names == {"k0", "kG"}  Texts == {"t1", "t2"}
OpSet == {[op |-> "cd", to |-> d] : d \in {"d1", "d2"}} \cup
         {[op |-> "touch", name |-> nm, text |-> "old"] : nm \in {"print_k0.txt", "notes.txt"}} \cup
         {[op |-> "print", name |-> nm, sufix |-> s, file |-> b] : nm \in Names, s \in Sufs, b \in BOOLEAN}
Init == st = NoFiles /\ last = [op |-> [op |-> "none"], text |-> ""]
Next == \E op \in OpSet, t \in Texts :
            st' = Do(st, op, t) /\ last' = [op |-> op, text |-> t]
view == st
OnlyOwnFile == [][\A key \in DOMAIN st.files :
    st'.files[key] = st.files[key] \/ (last'.op.op = "touch" /\ key = <<st.cwd, last'.op.name>>)
                                   \/ (last'.op.op = "print" /\ last'.op.file /\ key = <<st.cwd, FileName(last'.op.name, last'.op.sufix)>>)]_vars
LatestText == [][(last'.op.op = "print" /\ last'.op.file) =>
    st'.files[<<st.cwd, FileName(last'.op.name, last'.op.sufix)>>] = last'.text]_vars
OffWritesNothing == [][(last'.op.op = "print" /\ ~last'.op.file) => st' = st]_vars
=============================================================================
