------------------------------- MODULE Readers -------------------------------
(***************************************************************************)
(* Threads that observe one shared url, each working on a url of its own   *)
(* besides.  An operation is not atomic: it is a run of accesses to cells  *)
(* of the shared object, of the thread's own object, and of scratch space; *)
(* its result is made of what it read.  Scratch is either the thread's own *)
(* (Private) or common to all threads, which is what a function with a     *)
(* static buffer or a cache would have.                                    *)
(* With private scratch every interleaving gives every thread the results  *)
(* that it would get alone, and no two accesses race; with common scratch  *)
(* TLC finds both failures, which is why the code is watched for both.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Threads, Cells, Private, Rounds

\* an operation: what it reads of the shared object or writes of its own
Ops == {"read", "modify"}

VARIABLES pc,       \* [t -> <<operation, next cell, operations done>>]
          mine,     \* [t -> cells of the thread's own object]
          scratch,  \* [owner -> cells]
          seen      \* [t -> the results so far]

vars == <<pc, mine, scratch, seen>>
Shared == [c \in 1..Cells |-> c]              \* never written
Place(t) == IF Private THEN t ELSE 0

Init == /\ pc = [t \in Threads |-> <<"idle", 1, 0>>]
        /\ mine = [t \in Threads |-> [c \in 1..Cells |-> 100]]
        /\ scratch = [s \in Threads \cup {0} |-> [c \in 1..Cells |-> 0]]
        /\ seen = [t \in Threads |-> <<>>]

Begin(t) == /\ pc[t][1] = "idle" /\ pc[t][3] < Rounds
            /\ \E op \in Ops : pc' = [pc EXCEPT ![t] = <<op, 1, @[3]>>]
            /\ UNCHANGED <<mine, scratch, seen>>
\* copy one cell of the shared object to scratch
ReadCell(t) == /\ pc[t][1] = "read" /\ pc[t][2] <= Cells
               /\ scratch' = [scratch EXCEPT ![Place(t)][pc[t][2]] = Shared[pc[t][2]]]
               /\ pc' = [pc EXCEPT ![t][2] = @ + 1]
               /\ UNCHANGED <<mine, seen>>
\* through scratch, one cell of the own object
WriteCell(t) == /\ pc[t][1] = "modify" /\ pc[t][2] <= Cells
                /\ scratch' = [scratch EXCEPT ![Place(t)][pc[t][2]] = mine[t][pc[t][2]] + 1]
                /\ mine' = [mine EXCEPT ![t][pc[t][2]] = @ + 1]
                /\ pc' = [pc EXCEPT ![t][2] = @ + 1]
                /\ UNCHANGED seen
Finish(t) == /\ pc[t][1] # "idle" /\ pc[t][2] > Cells
             /\ seen' = [seen EXCEPT ![t] = Append(@, <<pc[t][1], scratch[Place(t)]>>)]
             /\ pc' = [pc EXCEPT ![t] = <<"idle", 1, @[3] + 1>>]
             /\ UNCHANGED <<mine, scratch>>
Next == \E t \in Threads : Begin(t) \/ ReadCell(t) \/ WriteCell(t) \/ Finish(t)
Spec == Init /\ [][Next]_vars

Modifies(q, k) == Cardinality({i \in 1..k : q[i][1] = "modify"})
\* what the thread would have got alone
AsAlone == \A t \in Threads : \A k \in 1..Len(seen[t]) :
    seen[t][k][2] = IF seen[t][k][1] = "read" THEN Shared
                    ELSE [c \in 1..Cells |-> 100 + Modifies(seen[t], k)]
\* two threads about to use the same scratch cell, one of them writing
Uses(t) == IF pc[t][1] = "idle" THEN {} ELSE IF pc[t][2] <= Cells THEN {<<Place(t), pc[t][2]>>} ELSE {<<Place(t), c>> : c \in 1..Cells}
NoRace == \A t, r \in Threads : t # r => Uses(t) \cap Uses(r) = {}
=============================================================================
