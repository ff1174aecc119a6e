------------------------------- MODULE Files --------------------------------
(* Working directories and the files printers leave there.                 *)
(* state: [cwd, files], files a function from <<directory, name>> to text  *)
EXTENDS TLC, Sequences
FileName(name, sufix) == "print_" \o name \o (IF sufix = "" THEN "" ELSE "_" \o sufix) \o ".txt"
NoFiles == [cwd |-> "d1", files |-> <<>>]
Write(f, key, text) == (key :> text) @@ f
Do(st, op, text) ==      \* text: what a printer returned
    CASE op.op = "cd" -> [st EXCEPT !.cwd = op.to]
      [] op.op = "touch" -> [st EXCEPT !.files = Write(@, <<st.cwd, op.name>>, op.text)]
      [] op.op = "print" -> IF op.file THEN [st EXCEPT !.files = Write(@, <<st.cwd, FileName(op.name, op.sufix)>>, text)] ELSE st
      [] OTHER -> st
=============================================================================
