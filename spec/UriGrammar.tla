----------------------------- MODULE UriGrammar -----------------------------
(***************************************************************************)
(* RFC 3986 URI-reference: which byte strings are URLs and how they split. *)
(*                                                                         *)
(* Written declaratively: the delimiters split the string (appendix B of   *)
(* the RFC), then each piece has to be valid for its component (appendix   *)
(* A).  It shares nothing with the recursive-descent parser in the code.   *)
(***************************************************************************)
EXTENDS UriChars

SchemeValid(s) == Len(s) > 0 /\ AlphaTab[s[1]] /\ All(s, SchemeTab)

-----------------------------------------------------------------------------
(* hosts *)

\* dec-octet: 0..255, no leading zero
DecOctet(s) ==
    /\ Len(s) \in 1..3
    /\ All(s, DigitTab)
    /\ Len(s) > 1 => s[1] # 48
    /\ Len(s) = 3 => 100 * (s[1] - 48) + 10 * (s[2] - 48) + (s[3] - 48) <= 255

IPv4Valid(s) == /\ Len(s) >= 7 /\ Len(s) <= 15
                /\ LET P == Split(s, Dot)
                   IN  Len(P) = 4 /\ \A i \in 1..4 : DecOctet(P[i])

H16(s) == Len(s) \in 1..4 /\ All(s, HexTab)

\* pieces P between colons are 16-bit groups; the last may be an IPv4 address
\* if mayV4.  Groups(P) is their number, or 99 if some piece is malformed.
Groups(P, mayV4) ==
    IF \A i \in 1..Len(P) : H16(P[i]) THEN Len(P)
    ELSE IF /\ mayV4
            /\ \A i \in 1..(Len(P) - 1) : H16(P[i])
            /\ IPv4Valid(P[Len(P)])
         THEN Len(P) + 1
         ELSE 99

\* IPv6address (the text between the brackets)
IPv6Valid(t) ==
    LET D == {i \in 1..(Len(t) - 1) : t[i] = Colon /\ t[i+1] = Colon}
    IN  IF D = {} THEN Groups(Split(t, Colon), TRUE) = 8
        ELSE /\ Cardinality(D) = 1
             /\ LET p == CHOOSE i \in D : TRUE
                    l == SubSeq(t, 1, p - 1)
                    r == SubSeq(t, p + 2, Len(t))
                    nl == IF l = <<>> THEN 0 ELSE Groups(Split(l, Colon), FALSE)
                    nr == IF r = <<>> THEN 0 ELSE Groups(Split(r, Colon), TRUE)
                IN  nl + nr <= 7

\* IPvFuture = "v" 1*HEXDIG "." 1*( unreserved / sub-delims / ":" )
IPvFutureValid(t) ==
    /\ Len(t) > 0 /\ t[1] \in {86, 118}
    /\ LET d == FirstIdx(t, Dot)
       IN  /\ d > 2 /\ d < Len(t)
           /\ All(SubSeq(t, 2, d - 1), HexTab)
           /\ All(After(t, d), UserTab)

Bracketed(s) == Len(s) >= 2 /\ s[1] = LBr /\ Last1(s) = RBr
Inner(s) == SubSeq(s, 2, Len(s) - 1)

None == 0   Name == 1   IPv4 == 2   IPv6 == 3   IPvFuture == 4   Bad == 9

\* The kind of host a text is; Bad if it is not a host at all
HostKind(s) ==
    IF s = <<>> THEN None
    ELSE IF s[1] = LBr
         THEN IF ~Bracketed(s) THEN Bad
              ELSE IF IPv6Valid(Inner(s)) THEN IPv6
              ELSE IF IPvFutureValid(Inner(s)) THEN IPvFuture
              ELSE Bad
    ELSE IF DigitTab[s[1]] /\ IPv4Valid(s) THEN IPv4
    ELSE IF PctValid(s, RegTab) THEN Name
    ELSE Bad

-----------------------------------------------------------------------------
(* authority = [ userinfo "@" ] host [ ":" port ] *)

NoAuth == [ok |-> TRUE, hu |-> FALSE, user |-> <<>>, hp |-> FALSE, pw |-> <<>>,
           host |-> <<>>, hport |-> FALSE, port |-> <<>>]

\* userinfo: the user ends at the first colon
SplitUserinfo(s) ==
    LET c == FirstIdx(s, Colon)
    IN  IF c = 0 THEN [user |-> s, hp |-> FALSE, pw |-> <<>>]
        ELSE [user |-> Before(s, c), hp |-> TRUE, pw |-> After(s, c)]

SplitAuthority(s) ==
    LET a  == FirstIdx(s, At)
        ui == IF a = 0 THEN <<>> ELSE Before(s, a)
        hp == IF a = 0 THEN s ELSE After(s, a)
        b  == IF hp # <<>> /\ hp[1] = LBr THEN FirstIdx(hp, RBr) ELSE 0
        c0 == FirstIdx(After(hp, b), Colon)
        c  == IF c0 = 0 THEN 0 ELSE c0 + b
        h  == IF c = 0 THEN hp ELSE Before(hp, c)
        p  == IF c = 0 THEN <<>> ELSE After(hp, c)
        U  == SplitUserinfo(ui)
    IN  [ok    |-> /\ PctValid(ui, UserTab)
                   /\ HostKind(h) # Bad
                   /\ All(p, DigitTab),
         hu    |-> a # 0,
         user  |-> U.user, hp |-> U.hp, pw |-> U.pw,
         host  |-> h,
         hport |-> c # 0, port |-> p]

-----------------------------------------------------------------------------
(* The components of a URL; absent components are empty with their flag off *)

EmptyUrl == [hs |-> FALSE, sch |-> <<>>,
             au |-> FALSE, hu |-> FALSE, user |-> <<>>, hp |-> FALSE, pw |-> <<>>,
             host |-> <<>>, hport |-> FALSE, port |-> <<>>,
             path |-> <<>>, hq |-> FALSE, query |-> <<>>, hf |-> FALSE, frag |-> <<>>]

\* Parse(s) is [ok, u]
Parse(s) ==
    LET f  == FirstIdx(s, Hash)
        s1 == IF f = 0 THEN s ELSE Before(s, f)
        fr == IF f = 0 THEN <<>> ELSE After(s, f)
        q  == FirstIdx(s1, Quest)
        s2 == IF q = 0 THEN s1 ELSE Before(s1, q)
        qu == IF q = 0 THEN <<>> ELSE After(s1, q)
        c  == SelectInSeq(s2, LAMBDA b : b = Colon \/ b = Slash)
        hs == c > 0 /\ s2[c] = Colon
        sc == IF hs THEN Before(s2, c) ELSE <<>>
        s3 == IF hs THEN After(s2, c) ELSE s2
        au == Len(s3) >= 2 /\ s3[1] = Slash /\ s3[2] = Slash
        s4 == IF au THEN After(s3, 2) ELSE s3
        p  == IF au THEN FirstIdx(s4, Slash) ELSE 1
        A  == IF ~au THEN NoAuth
              ELSE SplitAuthority(IF p = 0 THEN s4 ELSE Before(s4, p))
        pa == IF ~au THEN s3 ELSE IF p = 0 THEN <<>> ELSE SubSeq(s4, p, Len(s4))
    IN  [ok |-> /\ PctValid(fr, QueryTab)
                /\ PctValid(qu, QueryTab)
                /\ hs => SchemeValid(sc)     \* else a colon in the first
                /\ A.ok                      \* segment of a relative path
                /\ PctValid(pa, PathTab),
         u  |-> [hs |-> hs, sch |-> sc,
                 au |-> au, hu |-> A.hu, user |-> A.user, hp |-> A.hp, pw |-> A.pw,
                 host |-> A.host, hport |-> A.hport, port |-> A.port,
                 path |-> pa,
                 hq |-> q # 0, query |-> qu, hf |-> f # 0, frag |-> fr]]

-----------------------------------------------------------------------------
(* putting the components together (section 5.3) *)

UserinfoText(u) == u.user \o (IF u.hp THEN <<Colon>> \o u.pw ELSE <<>>)
HostPortText(u) == u.host \o (IF u.hport THEN <<Colon>> \o u.port ELSE <<>>)
AuthorityText(u) == (IF u.hu THEN Append(UserinfoText(u), At) ELSE <<>>) \o HostPortText(u)
OriginText(u) == (IF u.hs THEN Append(u.sch, Colon) ELSE <<>>) \o
                 (IF u.au THEN <<Slash, Slash>> \o AuthorityText(u) ELSE <<>>)
Unparse(u) == OriginText(u) \o u.path \o
              (IF u.hq THEN <<Quest>> \o u.query ELSE <<>>) \o
              (IF u.hf THEN <<Hash>> \o u.frag ELSE <<>>)

\* path segments: a leading slash introduces the first one
Segs(path) == IF path = <<>> THEN <<>>
              ELSE IF path[1] = Slash THEN Split(After(path, 1), Slash)
              ELSE Split(path, Slash)

\* query parameters as <<key, value>> pairs
KeyVal(p) == LET e == FirstIdx(p, Eq)
             IN  IF e = 0 THEN <<p, <<>>>> ELSE <<Before(p, e), After(p, e)>>
Params(u) == IF ~u.hq THEN <<>>
             ELSE LET P == Split(u.query, Amp)
                  IN  Tup([i \in 1..Len(P) |-> KeyVal(P[i])])
=============================================================================
