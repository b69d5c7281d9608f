------------------------------- MODULE UriAbnf -------------------------------
(***************************************************************************)
(* The grammar of RFC 3986, appendix A, as data, and an interpreter for it.*)
(*                                                                         *)
(* A second definition of which strings are URLs, independent of the one   *)
(* by delimiters in UriGrammar; TLC compares the two (UriStrings).         *)
(* Match(g, s, I) is the set of positions at which g can end in s when it  *)
(* starts at one of the positions I.                                       *)
(***************************************************************************)
EXTENDS UriChars

Ch(c)    == [k |-> "set", t |-> [b \in Byte |-> b = c]]
Cls(T)   == [k |-> "set", t |-> T]
Sq(L)    == [k |-> "seq", l |-> L]
Or(L)    == [k |-> "alt", l |-> L]
Rep(m, n, g) == [k |-> "rep", min |-> m, max |-> n, g |-> g]
Inf      == 100000
Many(g)  == Rep(0, Inf, g)
Many1(g) == Rep(1, Inf, g)
Opt(g)   == Rep(0, 1, g)
Eps      == Sq(<<>>)

RECURSIVE Match(_, _, _), MatchSeq(_, _, _, _), MatchRep(_, _, _, _)
Match(g, s, I) ==
    IF I = {} THEN {}
    ELSE CASE g.k = "set" -> {i + 1 : i \in {j \in I : j <= Len(s) /\ g.t[s[j]]}}
           [] g.k = "seq" -> MatchSeq(g.l, 1, s, I)
           [] g.k = "alt" -> UNION {Match(g.l[n], s, I) : n \in 1..Len(g.l)}
           [] g.k = "rep" -> MatchRep(g, 0, s, I)
MatchSeq(L, n, s, I) == IF n > Len(L) THEN I ELSE MatchSeq(L, n + 1, s, Match(L[n], s, I))
MatchRep(g, n, s, I) ==
    (IF n >= g.min THEN I ELSE {}) \cup
    (IF n = g.max \/ I = {} THEN {} ELSE MatchRep(g, n + 1, s, Match(g.g, s, I)))

Matches(g, s) == (Len(s) + 1) \in Match(g, s, {1})

-----------------------------------------------------------------------------
(* appendix A, line by line *)

ALPHA  == Cls(AlphaTab)
DIGIT  == Cls(DigitTab)
HEXDIG == Cls(HexTab)

unreserved == Or(<<ALPHA, DIGIT, Ch(45), Ch(46), Ch(95), Ch(126)>>)
subdelims  == Or(<<Ch(33), Ch(36), Ch(38), Ch(39), Ch(40), Ch(41), Ch(42), Ch(43), Ch(44), Ch(59), Ch(61)>>)
pctencoded == Sq(<<Ch(37), HEXDIG, HEXDIG>>)
pchar      == Or(<<unreserved, pctencoded, subdelims, Ch(58), Ch(64)>>)

query     == Many(Or(<<pchar, Ch(47), Ch(63)>>))
fragment  == Many(Or(<<pchar, Ch(47), Ch(63)>>))

segment      == Many(pchar)
segmentnz    == Many1(pchar)
segmentnznc  == Many1(Or(<<unreserved, pctencoded, subdelims, Ch(64)>>))

pathabempty  == Many(Sq(<<Ch(47), segment>>))
pathabsolute == Sq(<<Ch(47), Opt(Sq(<<segmentnz, Many(Sq(<<Ch(47), segment>>))>>))>>)
pathnoscheme == Sq(<<segmentnznc, Many(Sq(<<Ch(47), segment>>))>>)
pathrootless == Sq(<<segmentnz, Many(Sq(<<Ch(47), segment>>))>>)
pathempty    == Eps

regname == Many(Or(<<unreserved, pctencoded, subdelims>>))

\* dec-octet = DIGIT / %x31-39 DIGIT / "1" 2DIGIT / "2" %x30-34 DIGIT / "25" %x30-35
Rng(a, z) == Cls([b \in Byte |-> b >= a /\ b <= z])
decoctet == Or(<<DIGIT,
                 Sq(<<Rng(49, 57), DIGIT>>),
                 Sq(<<Ch(49), DIGIT, DIGIT>>),
                 Sq(<<Ch(50), Rng(48, 52), DIGIT>>),
                 Sq(<<Ch(50), Ch(53), Rng(48, 53)>>)>>)
IPv4address == Sq(<<decoctet, Ch(46), decoctet, Ch(46), decoctet, Ch(46), decoctet>>)

h16  == Rep(1, 4, HEXDIG)
hc   == Sq(<<h16, Ch(58)>>)
ls32 == Or(<<Sq(<<h16, Ch(58), h16>>), IPv4address>>)
dc   == Sq(<<Ch(58), Ch(58)>>)
Upto(n) == Opt(Sq(<<Rep(0, n, hc), h16>>))       \* [ *n( h16 ":" ) h16 ]
IPv6address == Or(<<
    Sq(<<              Rep(6, 6, hc), ls32>>),
    Sq(<<          dc, Rep(5, 5, hc), ls32>>),
    Sq(<<Upto(0),  dc, Rep(4, 4, hc), ls32>>),
    Sq(<<Upto(1),  dc, Rep(3, 3, hc), ls32>>),
    Sq(<<Upto(2),  dc, Rep(2, 2, hc), ls32>>),
    Sq(<<Upto(3),  dc, hc, ls32>>),
    Sq(<<Upto(4),  dc, ls32>>),
    Sq(<<Upto(5),  dc, h16>>),
    Sq(<<Upto(6),  dc>>)>>)

IPvFutureA == Sq(<<Or(<<Ch(118), Ch(86)>>), Many1(HEXDIG), Ch(46),
                   Many1(Or(<<unreserved, subdelims, Ch(58)>>))>>)
IPliteral  == Sq(<<Ch(91), Or(<<IPv6address, IPvFutureA>>), Ch(93)>>)

port      == Many(DIGIT)
host      == Or(<<IPliteral, IPv4address, regname>>)
userinfo  == Many(Or(<<unreserved, pctencoded, subdelims, Ch(58)>>))
user      == Many(Or(<<unreserved, pctencoded, subdelims>>))    \* userinfo up to its first colon
authority == Sq(<<Opt(Sq(<<userinfo, Ch(64)>>)), host, Opt(Sq(<<Ch(58), port>>))>>)
scheme    == Sq(<<ALPHA, Many(Or(<<ALPHA, DIGIT, Ch(43), Ch(45), Ch(46)>>))>>)

relativepart == Or(<<Sq(<<Ch(47), Ch(47), authority, pathabempty>>), pathabsolute, pathnoscheme, pathempty>>)
hierpart     == Or(<<Sq(<<Ch(47), Ch(47), authority, pathabempty>>), pathabsolute, pathrootless, pathempty>>)
tail         == Sq(<<Opt(Sq(<<Ch(63), query>>)), Opt(Sq(<<Ch(35), fragment>>))>>)
relativeref  == Sq(<<relativepart, tail>>)
URI          == Sq(<<scheme, Ch(58), hierpart, tail>>)
URIreference == Or(<<URI, relativeref>>)
=============================================================================
