-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* A static pool: a buffer of size bytes starting at address ba, and the   *)
(* blocks <<offset, length>> granted from it so far.                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, FiniteSets, Sequences

AlignUp(x, al) == ((x + al - 1) \div al) * al

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Top(blocks) == Max({0} \cup {b[1] + b[2] : b \in blocks})

Inside(size, b)  == b[1] >= 0 /\ b[1] + b[2] <= size
Aligned(ba, b, al) == (ba + b[1]) % al = 0
Disjoint(b, c) == b[2] = 0 \/ c[2] = 0 \/ b[1] + b[2] <= c[1] \/ c[1] + c[2] <= b[1]

\* may this block be granted?
Grantable(size, ba, blocks, b, al) ==
    /\ Inside(size, b)
    /\ Aligned(ba, b, al)
    /\ \A c \in blocks : Disjoint(b, c)

\* does the request fit in what remains beyond the granted blocks?
Fits(size, ba, blocks, sz, al) ==
    AlignUp(ba + Top(blocks), al) - ba + sz <= size
=============================================================================
