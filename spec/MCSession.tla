----------------------------- MODULE MCSession -----------------------------
(***************************************************************************)
(* Every order of operations on two small meshes (one of them, after a     *)
(* reread, with three triangles on a side) and two matrix handles, the     *)
(* user issuing only Valid operations.  Beside the abstract session runs a *)
(* model of how the library works: nodes carry the number they were given  *)
(* and edges the geometry that was current when the constitutive stiffness *)
(* was last computed; shear and geometric stiffness use what is stored.    *)
(***************************************************************************)
EXTENDS Session

CONSTANTS MaxTerms, MaxOps

VARIABLES s, store, last, n
vars == <<s, store, last, n>>

Pos0 == << <<1, "0", "0", "0">>, <<2, "1", "0", "0">>, <<3, "0", "1", "0">>, <<4, "1", "1", "0">> >>
Plain == [op |-> "read", xyz |-> Pos0, elems |-> << <<1, 1, 2, 3>>, <<2, 2, 4, 3>> >>]
Finned == [op |-> "read", xyz |-> Pos0, elems |-> << <<1, 1, 2, 3>>, <<2, 2, 4, 3>>, <<3, 2, 3, 1>> >>]
                 \* (a third element on side 2-3)
Alien == [op |-> "read", xyz |-> Pos0, elems |-> << <<1, 1, 2, 3>> >>, foreign |-> "CQUAD4"]

OpSet ==
    LET O == 1..2 IN
    UNION { {[q EXCEPT !.op = "read"] @@ [o |-> o] : q \in {Plain, Finned, Alien}, o \in O},
      {[op |-> "setnp", o |-> o, asg |-> a] : o \in O, a \in
          {<< <<1, "p1">>, <<2, "p1">>, <<3, "p1">>, <<4, "p1">> >>, << <<2, None>> >>}},
      {[op |-> "setep", o |-> o, asg |-> a] : o \in O, a \in
          {<< <<1, "p1">>, <<2, "p1">>, <<3, "p1">> >>, << <<2, None>> >>}},
      {[op |-> "move", o |-> o, node |-> 4, to |-> p] : o \in O, p \in {<<"1", "1", "0">>, <<"2", "1", "0">>}},
      {[op |-> "k0", o |-> o, pfn |-> b, h |-> h] : o \in O, b \in BOOLEAN, h \in O},
      {[op |-> "start", o |-> o, h |-> h] : o \in O, h \in O},
      {[op |-> "k0s", o |-> o, h |-> h, pfn |-> b, method |-> m] : o \in O, h \in O, b \in BOOLEAN, m \in {"edge-based", "edge_based"}},
      {[op |-> "kG", o |-> o, h |-> h, pfn |-> b] : o \in O, h \in O, b \in BOOLEAN} }

Init == s = EmptySession /\ store = <<"nothing", "nothing">> /\ last = [op |-> "none"] /\ n = 0

(* what the implementation keeps: coordinates the stored geometry was made of *)
Store(op) ==
    IF op.op = "read" /\ Outcome(s, op) = "ok" THEN [store EXCEPT ![op.o] = "nothing"]
    ELSE IF op.op = "k0" /\ Outcome(s, op) = "ok" THEN [store EXCEPT ![op.o] = s.objs[op.o].xyz]
    ELSE IF op.op = "k0" /\ Outcome(s, op) = "NotImplementedError" THEN [store EXCEPT ![op.o] = "broken"]
    ELSE store

Do(op) == /\ Valid(s, op)
          /\ s' = Step(s, op) /\ store' = Store(op)
          /\ last' = [op |-> op, out |-> Outcome(s, op)]
          /\ n' = n + 1
Next == n < MaxOps /\ \E op \in OpSet : Do(op)
Bound == \A h \in DOMAIN s.mats : Len(s.mats[h].terms) <= MaxTerms
view == <<s, store>>

-----------------------------------------------------------------------------
Names == {None, "p1"}
TypeOK ==
    /\ Len(s.objs) <= 2
    /\ \A i \in DOMAIN s.objs : /\ DOMAIN s.objs[i].np = DOMAIN s.objs[i].xyz
                                /\ \A v \in DOMAIN s.objs[i].np : s.objs[i].np[v] \in Names
                                /\ s.objs[i].geo \in {"none", "fresh", "stale"}
NumbersFirst == GeoNeedsNumbers(s)
(* whenever the user may compute shear or geometric stiffness, the stored  *)
(* geometry is that of the current coordinates: results depend only on the *)
(* current mesh data                                                       *)
NeverStale == \A i \in DOMAIN s.objs : s.objs[i].geo = "fresh" => store[i] = s.objs[i].xyz
FinNeverReady == \A i \in DOMAIN s.objs : ~Manifold(s.objs[i].elems) => s.objs[i].geo # "fresh"

(* Action properties *)
RefusalKeepsMatrices == [][last'.out # "ok" =>
                              /\ s'.mats = s.mats
                              /\ \A i \in DOMAIN s.objs : s'.objs[i].xyz = s.objs[i].xyz /\ s'.objs[i].np = s.objs[i].np
                                                         /\ s'.objs[i].ep = s.objs[i].ep]_vars
ValueErrorKeepsAll == [][last'.out = "ValueError" => s' = s]_vars
Independent == [][\A i \in DOMAIN s.objs : last'.op.o # i => s'.objs[i] = s.objs[i]]_vars
OneHandle == [][\A h \in DOMAIN s.mats : ("h" \notin DOMAIN last'.op \/ last'.op.h # h) => s'.mats[h] = s.mats[h]]_vars
ComputingKeepsInputs == [][last'.op.op \in {"k0", "k0s", "kG", "start"} =>
      \A i \in DOMAIN s.objs : s'.objs[i].xyz = s.objs[i].xyz /\ s'.objs[i].elems = s.objs[i].elems
                               /\ s'.objs[i].np = s.objs[i].np /\ s'.objs[i].ep = s.objs[i].ep]_vars
ValidInputSucceeds == [][(last'.op.op = "k0" /\ ~Lacking(s.objs[last'.op.o], last'.op.pfn)
                           /\ Manifold(s.objs[last'.op.o].elems)) => last'.out = "ok"]_vars
=============================================================================
