------------------------------- MODULE Stretch -------------------------------
(***************************************************************************)
(* Long texts.  The executor can run a history in which some tokens stand  *)
(* for k copies of themselves (k up to 66000), while the trace shows the   *)
(* short texts, so that the model judges urls far longer than TLC could    *)
(* work with.  That is sound because nothing in the model counts these     *)
(* tokens: every operation commutes with repeating them.  TLC checks here  *)
(* that it does so, for all strings up to a bound and k = 2, 3.            *)
(*                                                                         *)
(* Tokens: z (allowed everywhere, no hex digit, not touched by             *)
(* normalization), | (allowed nowhere) and its escape %7C, and for lists   *)
(* the segment and parameter y with the separator before it.               *)
(***************************************************************************)
EXTENDS UrlModel

CONSTANTS MaxTokens, Alphabet, Prefix, Calls, Factors

Reps == { <<122>>, <<124>>, <<37, 55, 67>>, <<47, 121>>, <<38, 121>> }

At0(s, t) == StartsWith(s, t)
TokenAt(s) == IF \E t \in Reps : At0(s, t) THEN CHOOSE t \in Reps : At0(s, t) ELSE <<s[1]>>
RECURSIVE Rep(_, _)
Rep(t, k) == IF k = 0 THEN <<>> ELSE t \o Rep(t, k - 1)

RECURSIVE Long(_, _)
Long(s, k) == IF s = <<>> THEN <<>>
              ELSE LET t == TokenAt(s)
                   IN  Rep(t, IF t \in Reps THEN k ELSE 1) \o Long(After(s, Len(t)), k)

\* how often s starts with t
RECURSIVE Copies(_, _)
Copies(s, t) == IF At0(s, t) THEN 1 + Copies(After(s, Len(t)), t) ELSE 0

\* the converse, as the executor does it; <<254, 1>> where it cannot be done
RECURSIVE Short(_, _)
Short(s, k) == IF s = <<>> THEN <<>>
               ELSE LET t == TokenAt(s)
                        c == Copies(s, t)
                    IN  IF t \notin Reps THEN t \o Short(After(s, 1), k)
                        ELSE Rep(t, c \div k) \o (IF c % k = 0 THEN <<>> ELSE <<254, 1>>) \o
                             Short(After(s, c * Len(t)), k)

\* lists of segments or of parameters
RECURSIVE ShortList(_, _, _)
ShortList(L, x, k) ==      \* x: the repeated item
    IF L = <<>> THEN <<>>
    ELSE IF L[1] # x THEN <<L[1]>> \o ShortList(Tail(L), x, k)
    ELSE LET c == Copies(L, <<x>>)
         IN  Rep(<<x>>, c \div k) \o (IF c % k = 0 THEN <<>> ELSE << <<254, 2>> >>) \o ShortList(After(L, c), x, k)
EachSeg(L, k) == Tup([i \in 1..Len(L) |-> Short(L[i], k)])
EachPair(L, k) == Tup([i \in 1..Len(L) |-> <<Short(L[i][1], k), Short(L[i][2], k)>>])
ShortSegs(L, k) == ShortList(EachSeg(L, k), <<121>>, k)
ShortPairs(L, k) == ShortList(EachPair(L, k), << <<121>>, <<>> >>, k)

ShortObs(o, k) == Tup([i \in 1..37 |->
    CASE i = 2 -> <<o[2][1] - Len(o[1]) + Len(Short(o[1], k))>>
      [] i \in {3, 6, 8, 16, 37} -> o[i]
      [] i = 29 -> <<o[29][1] - Len(o[30]) + Len(ShortSegs(o[30], k)), o[29][2]>>
      [] i = 33 -> <<o[33][1] - Len(o[34]) + Len(ShortPairs(o[34], k)), o[33][2]>>
      [] i \in 30..32 -> ShortSegs(o[i], k)
      [] i \in 34..36 -> ShortPairs(o[i], k)
      [] OTHER -> Short(o[i], k)])

-----------------------------------------------------------------------------
VARIABLES s, n
Init == s = Prefix /\ n = 0
Next == n < MaxTokens /\ n' = n + 1 /\ \E t \in Alphabet : s' = s \o t
Spec == Init /\ [][Next]_<<s, n>>

\* y is a whole segment of a path or a whole parameter
WholeItems ==
    LET next(i) == IF i + 2 > Len(s) THEN Hash ELSE s[i + 2]
        q == FirstIdx(s, Quest)
    IN  \A i \in 1..(Len(s) - 1) : s[i + 1] = 121 =>
            \/ s[i] = Slash /\ next(i) \in {Slash, Quest, Hash} /\ (q = 0 \/ i < q)
            \/ s[i] = Amp /\ next(i) \in {Amp, Hash} /\ q # 0 /\ i > q
ParseCommutes == WholeItems => \A k \in Factors :
    LET P == Parse(s)  Q == Parse(Long(s, k))
    IN  /\ Short(Long(s, k), k) = s
        /\ P.ok <=> Q.ok
        /\ P.ok => ShortObs(Obs(Q.u), k) = Obs(P.u)

\* Calls: <<op, argument, i, j>>
Possible(u, c) == /\ c[1] \in {"seg_erase", "seg_replace", "seg_replace_encoded"} => c[3] < Len(Segs(u.path))
                  /\ c[1] \in {"seg_insert", "seg_insert_encoded"} => c[3] <= Len(Segs(u.path))
CallsCommute == Parse(s).ok => \A k \in Factors : \A c \in {d \in Calls : Possible(Parse(s).u, d)} :
    LET a == Parse(s).u
        b == Parse(Long(s, k)).u
        P == Apply(a, c[1], c[2], c[3], c[4])
        Q == Apply(b, c[1], Long(c[2], k), c[3], c[4])
    IN  /\ P.res = Q.res
        /\ P.res = "ok" => ShortObs(Obs(Q.u), k) = Obs(P.u) /\ P.pos = Q.pos
        /\ P.res # "ok" => ShortObs(Obs(b), k) = Obs(a)

\* lookups, where the key is stretched as well
LookupsCommute == Parse(s).ok => \A k \in Factors : \A key \in {<<122>>, <<124>>, <<97, 122>>} :
    LET P == Lookup(Parse(s).u, key)  Q == Lookup(Parse(Long(s, k)).u, Long(key, k))
    IN  /\ <<P.contains, P.count, P.find, P.atres>> = <<Q.contains, Q.count, Q.find, Q.atres>>
        /\ P.index = Short(Q.index, k) /\ P.at = Short(Q.at, k)
=============================================================================
