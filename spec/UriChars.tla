------------------------------ MODULE UriChars ------------------------------
(***************************************************************************)
(* Characters, percent-encoding and byte-string helpers of RFC 3986.       *)
(*                                                                         *)
(* A byte string is a sequence over 0..255.  Character classes are boolean *)
(* tables over 0..255, written from the ABNF of RFC 3986 (appendix A).     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

Byte == 0..255

Colon == 58   Slash == 47   Quest == 63   Hash == 35   At == 64
Pct   == 37   Dot   == 46   Amp   == 38   Eq   == 61
LBr   == 91   RBr   == 93

IsAlpha(b)  == (b >= 65 /\ b <= 90) \/ (b >= 97 /\ b <= 122)
IsDigit(b)  == b >= 48 /\ b <= 57
IsHex(b)    == IsDigit(b) \/ (b >= 65 /\ b <= 70) \/ (b >= 97 /\ b <= 102)

\* unreserved = ALPHA / DIGIT / "-" / "." / "_" / "~"
IsUnreserved(b) == IsAlpha(b) \/ IsDigit(b) \/ b \in {45, 46, 95, 126}
\* sub-delims = "!" / "$" / "&" / "'" / "(" / ")" / "*" / "+" / "," / ";" / "="
IsSubDelim(b)   == b \in {33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61}

Tab(T(_)) == [b \in Byte |-> T(b)]

AlphaTab  == Tab(IsAlpha)
DigitTab  == Tab(IsDigit)
HexTab    == Tab(IsHex)
\* scheme = ALPHA *( ALPHA / DIGIT / "+" / "-" / "." )
SchemeTab == [b \in Byte |-> IsAlpha(b) \/ IsDigit(b) \/ b \in {43, 45, 46}]
\* reg-name characters (also: user, i.e. userinfo up to its first colon)
RegTab    == [b \in Byte |-> IsUnreserved(b) \/ IsSubDelim(b)]
\* userinfo, and the tail of an IPvFuture
UserTab   == [b \in Byte |-> RegTab[b] \/ b = Colon]
\* pchar
PCharTab  == [b \in Byte |-> RegTab[b] \/ b \in {Colon, At}]
\* a whole path
PathTab   == [b \in Byte |-> PCharTab[b] \/ b = Slash]
\* query, fragment
QueryTab  == [b \in Byte |-> PCharTab[b] \/ b \in {Slash, Quest}]

HexValTab == [b \in Byte |-> IF IsDigit(b) THEN b - 48
                             ELSE IF b >= 97 /\ b <= 102 THEN b - 87
                             ELSE IF b >= 65 /\ b <= 70 THEN b - 55
                             ELSE 0]
HexUp == <<48,49,50,51,52,53,54,55,56,57,65,66,67,68,69,70>>

LowerTab == [b \in Byte |-> IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b]

-----------------------------------------------------------------------------
(* byte strings *)

Tup(f) == f \o <<>>                    \* force a sequence-valued function
Has(s, b) == \E i \in 1..Len(s) : s[i] = b
FirstIdx(s, b) == SelectInSeq(s, LAMBDA c : c = b)   \* 0 if absent
Before(s, i) == SubSeq(s, 1, i - 1)
After(s, i)  == SubSeq(s, i + 1, Len(s))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Last1(s) == s[Len(s)]
All(s, T) == \A i \in 1..Len(s) : T[s[i]]

\* the pieces of s between the occurrences of b; always at least one piece
Split(s, b) ==
    IF ~Has(s, b) THEN <<s>>
    ELSE LET P == SelectSeq(Tup([i \in 1..Len(s) |-> i]), LAMBDA i : s[i] = b)
             n == Len(P)
         IN  Tup([k \in 1..(n + 1) |->
                    SubSeq(s, IF k = 1 THEN 1 ELSE P[k-1] + 1,
                              IF k = n + 1 THEN Len(s) ELSE P[k] - 1)])

RECURSIVE JoinFrom(_, _, _)
JoinFrom(L, b, k) == IF k > Len(L) THEN <<>>
                     ELSE <<b>> \o L[k] \o JoinFrom(L, b, k + 1)
\* pieces joined with separator b
Join(L, b) == IF L = <<>> THEN <<>> ELSE L[1] \o JoinFrom(L, b, 2)

Lower(s) == Tup([i \in 1..Len(s) |-> LowerTab[s[i]]])

-----------------------------------------------------------------------------
(* percent-encoding *)

\* every byte is allowed by T or part of a "%" HEXDIG HEXDIG triplet
\* (hex digits are allowed by every T used)
PctValid(s, T) ==
    \A i \in 1..Len(s) :
        \/ T[s[i]]
        \/ /\ s[i] = Pct
           /\ i + 2 <= Len(s)
           /\ HexTab[s[i+1]]
           /\ HexTab[s[i+2]]

\* the bytes an encoded string stands for (total: a truncated escape is kept)
Decode(s) ==
    IF ~Has(s, Pct) THEN s
    ELSE LET K == SelectSeq(Tup([i \in 1..Len(s) |-> i]),
                     LAMBDA i : ~(i > 1 /\ s[i-1] = Pct) /\ ~(i > 2 /\ s[i-2] = Pct))
         IN  Tup([k \in 1..Len(K) |->
                    IF s[K[k]] = Pct /\ K[k] + 2 <= Len(s)
                    THEN 16 * HexValTab[s[K[k]+1]] + HexValTab[s[K[k]+2]]
                    ELSE s[K[k]]])

EncByte(b, T) == IF T[b] THEN <<b>>
                 ELSE <<Pct, HexUp[(b \div 16) + 1], HexUp[(b % 16) + 1]>>

\* keep what T allows, escape everything else ("%" is never in T)
Encode(s, T) == IF All(s, T) THEN s
                ELSE FlattenSeq(Tup([i \in 1..Len(s) |-> EncByte(s[i], T)]))
=============================================================================
