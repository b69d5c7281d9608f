------------------------------ MODULE PoolSpec ------------------------------
(***************************************************************************)
(* A static pool as a state machine.  A request for count objects of a     *)
(* type is granted a block, or refused if what remains cannot hold it.     *)
(* Addresses and sizes are kept in words that wrap around at Word, as the  *)
(* machine's do: Compute is the computation an implementation would make,  *)
(* and the properties say that it never goes wrong.                        *)
(***************************************************************************)
EXTENDS Pool, TLC

CONSTANTS Bases,     \* addresses the buffer may start at
          Sizes,     \* sizes of the buffer
          Types,     \* <<size, alignment>> of a type
          Counts,    \* objects asked for
          Word,      \* words are 0..Word-1
          Depth

VARIABLES base, size, top, blocks, hist

vars == <<base, size, top, blocks, hist>>

Init == /\ base \in Bases /\ size \in Sizes
        /\ top = base /\ blocks = {} /\ hist = <<>>

\* in words that wrap around
W(x) == x % Word
Compute(ty, n) ==
    LET mult  == n * ty[1] >= Word                       \* n * size would wrap
        bytes == W(n * ty[1])
        p     == W((W(top + ty[2] - 1) \div ty[2]) * ty[2])
    IN  [ok |-> ~mult /\ p >= top /\ p <= base + size /\ bytes <= size - (p - base), p |-> p, bytes |-> bytes]

Request(ty, n) ==
    LET R == Compute(ty, n)
    IN  /\ hist' = Append(hist, <<ty, n, IF R.ok THEN 1 ELSE 0>>)
        /\ IF R.ok THEN /\ top' = R.p + R.bytes
                        /\ blocks' = blocks \cup {<<R.p - base, R.bytes, ty[2]>>}
           ELSE UNCHANGED <<top, blocks>>
        /\ UNCHANGED <<base, size>>

Next == Len(hist) < Depth /\ \E ty \in Types, n \in Counts : Request(ty, n)
Spec == Init /\ [][Next]_vars

Placed   == \A b \in blocks : Inside(size, b) /\ Aligned(base, b, b[3])
Apart    == \A b, c \in blocks : b # c => Disjoint(b, c)
\* granted exactly if it fits, counted without wrapping around
Exact    == \A ty \in Types, n \in Counts :
               Compute(ty, n).ok <=> Fits(size, base, blocks, n * ty[1], ty[2])
Exhausts == Cardinality({b \in blocks : b[2] > 0}) <= size

Emit == Len(hist) = Depth => PrintT("HIST " \o ToString(<<base, size, hist>>))
=============================================================================
