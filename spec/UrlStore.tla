------------------------------ MODULE UrlStore ------------------------------
(***************************************************************************)
(* Where urls keep their characters: buffers obtained from an allocator    *)
(* that may fail, owned by url objects that are modified, copied, moved,   *)
(* assigned and destroyed.                                                 *)
(*                                                                         *)
(* A url object is [n, cap, buf]: the length of its text, its capacity and *)
(* its buffer (0: none).  The heap is the function from the buffers in use *)
(* to their sizes.  How much a growing url asks for is left open: any      *)
(* capacity that holds the text (Room).                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Obj0 == [n |-> 0, cap |-> 0, buf |-> 0]

\* ---- laws of one object, of one step; UrlTrace uses them on recorded ones --
ObjOk(o, heap) ==
    /\ o.n <= o.cap
    /\ o.buf = 0 <=> o.cap = 0
    /\ o.buf # 0 => o.buf \in DOMAIN heap /\ heap[o.buf] >= o.cap + 1     \* the terminator
Apart(o, p) == o.buf = 0 \/ o.buf # p.buf
\* a modification from a to b
Stays(a, b)  == b.n <= a.cap => b.cap = a.cap /\ b.buf = a.buf
Keeps(a, b)  == b.cap >= a.cap

-----------------------------------------------------------------------------
CONSTANTS Lens,      \* text lengths
          Depth      \* calls in a history

VARIABLES obj,       \* the urls in slots 1 and 2
          heap,
          next,      \* next buffer
          hist       \* the calls so far: <<call, slot, length, allocation that fails or 0>>

vars == <<obj, heap, next, hist>>
Other(s) == 3 - s
Init == obj = <<Obj0, Obj0>> /\ heap = <<>> /\ next = 1 /\ hist = <<>>

Without(h, b) == [x \in DOMAIN h \ {b} |-> h[x]]
With(h, b, z) == [x \in DOMAIN h \cup {b} |-> IF x = b THEN z ELSE h[x]]
Room(o, n) == {n, IF 2 * o.cap > n THEN 2 * o.cap ELSE n + 1}
Log(c, s, n, f) == hist' = Append(hist, <<c, s, n, f>>)

\* slot s is to hold n characters; what it held before is given up
Place(s, o, h, n, f) ==
    IF n <= o.cap
    THEN obj' = [obj EXCEPT ![s] = [o EXCEPT !.n = n]] /\ heap' = h /\ next' = next
    ELSE IF f = 1
    THEN obj' = [obj EXCEPT ![s] = o] /\ heap' = h /\ next' = next
    ELSE \E c \in Room(o, n) :
         /\ obj' = [obj EXCEPT ![s] = [n |-> n, cap |-> c, buf |-> next]]
         /\ heap' = With(Without(h, o.buf), next, c + 1)
         /\ next' = next + 1

Modify(s, n, f) == Place(s, obj[s], heap, n, f) /\ Log("modify", s, n, f)
\* assignment may reuse the room there is, or take new room and give back the old
Afresh(s, n) == /\ n > 0
                /\ \E c \in Room(Obj0, n) :
                      /\ obj' = [obj EXCEPT ![s] = [n |-> n, cap |-> c, buf |-> next]]
                      /\ heap' = With(Without(heap, obj[s].buf), next, c + 1)
                      /\ next' = next + 1
Assign(s, f)    == /\ \/ Place(s, obj[s], heap, obj[Other(s)].n, f)
                      \/ f = 0 /\ Afresh(s, obj[Other(s)].n)
                   /\ Log("assign", s, 0, f)
SelfAssign(s)   == UNCHANGED <<obj, heap, next>> /\ Log("selfassign", s, 0, 0)
\* the old object in slot s is destroyed, then a new one is made
Copy(s, f)      == Place(s, Obj0, Without(heap, obj[s].buf), obj[Other(s)].n, f) /\ Log("copy", s, 0, f)
Move(s)         == /\ obj' = [obj EXCEPT ![s] = obj[Other(s)], ![Other(s)] = Obj0]
                   /\ heap' = Without(heap, obj[s].buf)
                   /\ UNCHANGED next /\ Log("move", s, 0, 0)
\* an argument that is refused, before or after room was made for it
Refused(s)      == UNCHANGED <<obj, heap, next>> /\ Log("refused", s, 0, 0)

Next == /\ Len(hist) < Depth
        /\ \E s \in 1..2 :
              \/ \E n \in Lens, f \in 0..1 : Modify(s, n, f)
              \/ \E f \in 0..1 : Assign(s, f) \/ Copy(s, f)
              \/ Move(s) \/ SelfAssign(s) \/ Refused(s)
Spec == Init /\ [][Next]_vars

Owned == {obj[s].buf : s \in 1..2} \ {0}
Objects    == \A s \in 1..2 : ObjOk(obj[s], heap)                     \* C19
Separate   == Apart(obj[1], obj[2])                                    \* C18
NoLeak     == DOMAIN heap = Owned                                      \* C19, C09
LastCall == hist'[Len(hist')]
\* C19: a modification stays in place while it fits, never gives room back
InPlace    == [][LastCall[1] \in {"modify", "selfassign", "refused"} =>
                   LET s == LastCall[2] IN Stays(obj[s], obj'[s]) /\ Keeps(obj[s], obj'[s])]_vars
\* C09: what fails changes nothing
FailedSame == [][LastCall[1] \in {"modify", "assign"} /\ LastCall[4] = 1 =>
                   LET s == LastCall[2] IN obj'[s] = obj[s] \/ obj'[s].n <= obj[s].cap]_vars
\* C18: the other url is never affected, except as the source of a move
Untouched  == [][LastCall[1] # "move" => obj'[Other(LastCall[2])] = obj[Other(LastCall[2])]]_vars

\* what is replayed does not depend on the capacities chosen
Emit == Len(hist) = Depth => PrintT("HIST " \o ToString(hist))
=============================================================================
