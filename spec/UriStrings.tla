----------------------------- MODULE UriStrings -----------------------------
(***************************************************************************)
(* Every string over an alphabet of tokens, up to a length, grown one      *)
(* token at a time and put into frames (a prefix and a suffix).  TLC       *)
(* checks on all of them what the grammar and the codecs have to satisfy;  *)
(* the strings are then parsed by the real code.                           *)
(***************************************************************************)
EXTENDS UrlModel

ABNF == INSTANCE UriAbnf

CONSTANTS Tokens,     \* set of byte strings
          MaxTokens,  \* longest string, in tokens
          Frames      \* set of <<prefix, suffix>>

VARIABLES s, n

Init == s = <<>> /\ n = 0
Next == n < MaxTokens /\ n' = n + 1 /\ \E t \in Tokens : s' = s \o t
Spec == Init /\ [][Next]_<<s, n>>

Framed == {f[1] \o s \o f[2] : f \in Frames}

-----------------------------------------------------------------------------
\* C01: the two definitions of the language agree
Language == \A x \in Framed : Parse(x).ok <=> ABNF!Matches(ABNF!URIreference, x)

\* C02, C04: the components put together are the string; each one is what the
\* grammar says it is
Components == \A x \in Framed :
    LET P == Parse(x)
        v == P.u
        M(g, y) == ABNF!Matches(g, y)
    IN  P.ok =>
        /\ Unparse(v) = x
        /\ v.hs  => M(ABNF!scheme, v.sch)
        /\ v.au  => M(ABNF!authority, AuthorityText(v)) /\ M(ABNF!pathabempty, v.path)
        /\ v.hu  => M(ABNF!userinfo, UserinfoText(v)) /\ M(ABNF!user, v.user)
        /\ M(ABNF!host, v.host) /\ M(ABNF!port, v.port)
        /\ ~v.au /\ v.hs  => M(ABNF!Or(<<ABNF!pathabsolute, ABNF!pathrootless, ABNF!pathempty>>), v.path)
        /\ ~v.au /\ ~v.hs => M(ABNF!Or(<<ABNF!pathabsolute, ABNF!pathnoscheme, ABNF!pathempty>>), v.path)
        /\ M(ABNF!query, v.query) /\ M(ABNF!fragment, v.frag)
        \* an absent component is empty, and present ones are told from absent ones
        /\ (v.hu \/ v.hport \/ v.host # <<>>) => v.au
        /\ v.hp => v.hu
        /\ ~v.hs => v.sch = <<>>
        /\ ~v.hu => v.user = <<>>
        /\ ~v.hp => v.pw = <<>>
        /\ ~v.hport => v.port = <<>>
        /\ ~v.hq => v.query = <<>>
        /\ ~v.hf => v.frag = <<>>

\* C03: the kind of a host follows the grammar, first match wins
HostKinds == \A x \in Framed :
    HostKind(x) =
        IF x = <<>> THEN None
        ELSE IF ABNF!Matches(ABNF!IPv4address, x) THEN IPv4
        ELSE IF ABNF!Matches(ABNF!Sq(<<ABNF!Ch(91), ABNF!IPv6address, ABNF!Ch(93)>>), x) THEN IPv6
        ELSE IF ABNF!Matches(ABNF!Sq(<<ABNF!Ch(91), ABNF!IPvFutureA, ABNF!Ch(93)>>), x) THEN IPvFuture
        ELSE IF ABNF!Matches(ABNF!regname, x) THEN Name
        ELSE Bad

\* C10: encoding is undone by decoding, keeps exactly the allowed bytes, and
\* gives text that is valid for the component
Tabs == {RegTab, UserTab, PCharTab, QueryTab}
Codec == \A x \in Framed : \A T \in Tabs :
    LET e == Encode(x, T)
    IN  /\ Decode(e) = x
        /\ PctValid(e, T)
        /\ Len(e) = Len(x) + 2 * Cardinality({i \in 1..Len(x) : ~T[x[i]]})
        /\ (e = x) = All(x, T)

\* C11: decoding, said once more by recursion
RECURSIVE Dec(_)
Dec(x) == IF x = <<>> THEN <<>>
          ELSE IF x[1] # Pct THEN <<x[1]>> \o Dec(Tail(x))
          ELSE IF Len(x) < 3 THEN x
          ELSE <<16 * HexValTab[x[2]] + HexValTab[x[3]]>> \o Dec(SubSeq(x, 4, Len(x)))
Decoding == \A x \in Framed :
    PctValid(x, [b \in Byte |-> b # Pct]) =>
        /\ Decode(x) = Dec(x)
        /\ Len(Decode(x)) = Len(x) - 2 * Cardinality({i \in 1..Len(x) : x[i] = Pct})

\* C12: the segments are the path
Segments == \A x \in Framed :
    PctValid(x, PathTab) =>
    LET S == Segs(x)
        sl == Cardinality({i \in 1..Len(x) : x[i] = Slash})
    IN  /\ \A i \in 1..Len(S) : ~Has(S[i], Slash)
        /\ x = <<>> <=> S = <<>>
        /\ x # <<>> => IF x[1] = Slash THEN x = <<Slash>> \o Join(S, Slash) /\ Len(S) = sl
                       ELSE x = Join(S, Slash) /\ Len(S) = sl + 1

\* C14: the parameters are the query
Parameters == \A x \in Framed :
    LET v == [EmptyUrl EXCEPT !.hq = TRUE, !.query = x]
        L == Params(v)
        back == Tup([i \in 1..Len(L) |-> IF Has(Split(x, Amp)[i], Eq) THEN L[i][1] \o <<Eq>> \o L[i][2] ELSE L[i][1]])
    IN  /\ Len(L) = 1 + Cardinality({i \in 1..Len(x) : x[i] = Amp})
        /\ \A i \in 1..Len(L) : ~Has(L[i][1], Eq) /\ ~Has(L[i][1], Amp) /\ ~Has(L[i][2], Amp)
        /\ Join(back, Amp) = x
        /\ Params(EmptyUrl) = <<>>

\* C15: the lookups agree with one another
Keys == {<<>>, <<97>>, <<98>>, <<97, 98>>, <<37>>, <<61>>}
Lookups == \A x \in Framed : PctValid(x, QueryTab) =>
    \A key \in Keys :
    LET v == [EmptyUrl EXCEPT !.hq = TRUE, !.query = x]
        L == Params(v)
        r == Lookup(v, key)
        E == {i \in 1..Len(L) : Dec(L[i][1]) = key}
    IN  /\ r.contains = (IF E = {} THEN 0 ELSE 1)
        /\ r.count = Cardinality(E)
        /\ r.find < Len(L) <=> E # {}
        /\ E # {} => /\ (r.find + 1) \in E /\ \A i \in E : i >= r.find + 1
                     /\ r.index = Dec(L[r.find + 1][2]) /\ r.atres = "ok" /\ r.at = r.index
        /\ E = {} => r.index = <<>> /\ r.atres = "out_of_range"

\* C16: scheme names
Schemes == \A x \in Framed :
    /\ SchemeId(x) = SchemeId(Lower(x))
    /\ SchemeId(x) # 0 => SchemeNames[SchemeId(x)] = Lower(x)
    /\ Lower(Lower(x)) = Lower(x)
    /\ SchemeValid(x) <=> ABNF!Matches(ABNF!scheme, x)
    /\ SchemeValid(x) => SchemeValid(Lower(x))

-----------------------------------------------------------------------------
\* prints the strings, for the executor
Emit == PrintT("STR " \o ToString(s))
EmitFrames == \A x \in Framed : PrintT("STR " \o ToString(x))
=============================================================================
