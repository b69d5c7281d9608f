------------------------------ MODULE UrlModel ------------------------------
(***************************************************************************)
(* The url container as an abstract data type.                             *)
(*                                                                         *)
(* A url is the record of its components (see EmptyUrl in UriGrammar).     *)
(* Obs(u) is everything the public accessors report; Apply(u, op, s, i, j) *)
(* is what each public modifier does: it either succeeds with a new url    *)
(* or is refused, leaving the url as it was.                               *)
(***************************************************************************)
EXTENDS UriGrammar

B(b) == IF b THEN <<1>> ELSE <<0>>

HostText(u) == IF HostKind(u.host) = Name THEN Decode(u.host) ELSE u.host

DecodeAll(L) == Tup([i \in 1..Len(L) |-> Decode(L[i])])
DecodePairs(L) == Tup([i \in 1..Len(L) |-> <<Decode(L[i][1]), Decode(L[i][2])>>])
Count(L) == <<Len(L), IF Len(L) = 0 THEN 1 ELSE 0>>

\* What the accessors report, by position (Tags in UrlTrace names them)
Obs(u) ==
    LET t  == Unparse(u)
        S  == Segs(u.path)
        P  == Params(u)
        ui == UserinfoText(u)
    IN <<t,                                                 \*  1 encoded_url
         <<Len(t)>>,                                        \*  2 size
         <<1, 1>>,                                          \*  3 data() is encoded_url(), null-terminated
         u.sch,                                             \*  4 scheme
         OriginText(u),                                     \*  5 encoded_origin
         B(u.au),                                           \*  6 has_authority
         AuthorityText(u),                                  \*  7 encoded_authority
         B(u.hu),                                           \*  8 has_userinfo
         ui,                                                \*  9 encoded_userinfo
         IF u.hu THEN Append(ui, At) ELSE <<>>,             \* 10 userinfo_part
         u.user,                                            \* 11 encoded_user
         Decode(u.user),                                    \* 12 user
         u.pw,                                              \* 13 encoded_password
         Decode(u.pw),                                      \* 14 password
         IF u.hp THEN <<Colon>> \o u.pw ELSE <<>>,          \* 15 password_part
         <<HostKind(u.host)>>,                              \* 16 host_type
         HostText(u),                                       \* 17 host
         u.host,                                            \* 18 encoded_host
         HostPortText(u),                                   \* 19 encoded_host_and_port
         u.port,                                            \* 20 port
         IF u.hport THEN <<Colon>> \o u.port ELSE <<>>,     \* 21 port_part
         u.path,                                            \* 22 encoded_path
         u.query,                                           \* 23 encoded_query
         Decode(u.query),                                   \* 24 query
         IF u.hq THEN <<Quest>> \o u.query ELSE <<>>,       \* 25 query_part
         u.frag,                                            \* 26 encoded_fragment
         Decode(u.frag),                                    \* 27 fragment
         IF u.hf THEN <<Hash>> \o u.frag ELSE <<>>,         \* 28 fragment_part
         Count(S),                                          \* 29 segments().size, empty
         S,                                                 \* 30 segments forwards
         Reverse(S),                                        \* 31 segments backwards
         DecodeAll(S),                                      \* 32 segments decoded
         Count(P),                                          \* 33 params().size, empty
         P,                                                 \* 34 params forwards
         Reverse(P),                                        \* 35 params backwards
         DecodePairs(P),                                    \* 36 params decoded
         <<1>>                                              \* 37 same with other allocators
       >>

-----------------------------------------------------------------------------
(* When would the text read back as something else?  (documented design:   *)
(* an ambiguous modification is refused)                                    *)

Amb(u) ==
    \/ u.au /\ u.path # <<>> /\ u.path[1] # Slash
    \/ ~u.au /\ Len(u.path) >= 2 /\ u.path[1] = Slash /\ u.path[2] = Slash
    \/ /\ ~u.au /\ ~u.hs /\ u.path # <<>> /\ u.path[1] # Slash
       /\ Has(Split(u.path, Slash)[1], Colon)

Ok(u)      == [res |-> "ok", u |-> u, pos |-> 0]
OkPos(u,i) == [res |-> "ok", u |-> u, pos |-> i]
Refuse(u)  == [res |-> "invalid_part", u |-> u, pos |-> 0]
\* v if it reads back as itself, else refuse and keep u
Unamb(u, v) == IF Amb(v) THEN Refuse(u) ELSE Ok(v)

DropAuth(u) == [u EXCEPT !.au = FALSE, !.hu = FALSE, !.user = <<>>,
                         !.hp = FALSE, !.pw = <<>>, !.host = <<>>,
                         !.hport = FALSE, !.port = <<>>]
PutAuth(u, A) == [u EXCEPT !.au = TRUE, !.hu = A.hu, !.user = A.user,
                           !.hp = A.hp, !.pw = A.pw, !.host = A.host,
                           !.hport = A.hport, !.port = A.port]

SetUrl(u, s) == LET P == Parse(s) IN IF P.ok THEN Ok(P.u) ELSE Refuse(u)

\* the argument is scheme ":" hier-part; its path, if any, is not used
SetOrigin(u, s) ==
    IF s = <<>> THEN Unamb(u, [DropAuth(u) EXCEPT !.hs = FALSE, !.sch = <<>>])
    ELSE LET P == Parse(s)
         IN  IF P.ok /\ P.u.hs /\ ~P.u.hq /\ ~P.u.hf
             THEN LET v == IF P.u.au THEN PutAuth(u, P.u) ELSE DropAuth(u)
                  IN  Unamb(u, [v EXCEPT !.hs = TRUE, !.sch = P.u.sch])
             ELSE Refuse(u)

SetScheme(u, s) ==
    IF s = <<>> THEN Unamb(u, [u EXCEPT !.hs = FALSE, !.sch = <<>>])
    ELSE IF SchemeValid(s) THEN Ok([u EXCEPT !.hs = TRUE, !.sch = s])
    ELSE Refuse(u)

SetAuthority(u, s) ==
    IF s = <<>> THEN Unamb(u, DropAuth(u))
    ELSE LET A == SplitAuthority(s)
         IN  IF A.ok /\ ~Has(s, Slash) THEN Unamb(u, PutAuth(u, A)) ELSE Refuse(u)

ClearUserinfo(u) ==
    IF u.host = <<>> /\ ~u.hport THEN Unamb(u, DropAuth(u))
    ELSE Ok([u EXCEPT !.hu = FALSE, !.user = <<>>, !.hp = FALSE, !.pw = <<>>])

SetEncUserinfo(u, s) ==
    IF s = <<>> THEN ClearUserinfo(u)
    ELSE IF PctValid(s, UserTab)
         THEN LET U == SplitUserinfo(s)
              IN  Unamb(u, [u EXCEPT !.au = TRUE, !.hu = TRUE, !.user = U.user,
                                     !.hp = U.hp, !.pw = U.pw])
         ELSE Refuse(u)

SetUserinfoPart(u, s) ==
    IF s = <<>> THEN ClearUserinfo(u)
    ELSE IF Last1(s) = At THEN SetEncUserinfo(u, SubSeq(s, 1, Len(s) - 1))
    ELSE Refuse(u)

ClearUser(u) ==
    IF ~u.hu THEN Ok(u)
    ELSE IF u.hp THEN Ok([u EXCEPT !.user = <<>>])
    ELSE Ok([u EXCEPT !.hu = FALSE, !.user = <<>>])

PutUser(u, e) == Unamb(u, [u EXCEPT !.au = TRUE, !.hu = TRUE, !.user = e])
SetUser(u, s) == IF s = <<>> THEN ClearUser(u) ELSE PutUser(u, Encode(s, RegTab))
SetEncUser(u, s) == IF s = <<>> THEN ClearUser(u)
                    ELSE IF PctValid(s, RegTab) THEN PutUser(u, s) ELSE Refuse(u)

ClearPassword(u) ==
    IF ~u.hu THEN Ok(u)
    ELSE IF u.user = <<>> THEN Ok([u EXCEPT !.hu = FALSE, !.hp = FALSE, !.pw = <<>>])
    ELSE Ok([u EXCEPT !.hp = FALSE, !.pw = <<>>])

PutPassword(u, e) == Unamb(u, [u EXCEPT !.au = TRUE, !.hu = TRUE, !.hp = TRUE, !.pw = e])
SetPassword(u, s) == IF s = <<>> THEN ClearPassword(u) ELSE PutPassword(u, Encode(s, UserTab))
SetEncPassword(u, s) ==
    IF s = <<>> THEN ClearPassword(u)
    ELSE IF s[1] # Colon /\ PctValid(s, UserTab) THEN PutPassword(u, s) ELSE Refuse(u)
SetPasswordPart(u, s) ==
    IF s = <<>> THEN ClearPassword(u)
    ELSE IF s[1] = Colon /\ PctValid(s, UserTab) THEN PutPassword(u, After(s, 1))
    ELSE Refuse(u)

ClearHost(u) == IF u.au /\ ~u.hu /\ ~u.hport THEN Unamb(u, DropAuth(u))
                ELSE Ok([u EXCEPT !.host = <<>>])
PutHost(u, e) == Unamb(u, [u EXCEPT !.au = TRUE, !.host = e])
SetHost(u, s) ==
    IF s = <<>> THEN ClearHost(u)
    ELSE PutHost(u, IF HostKind(s) \in {IPv4, IPv6, IPvFuture} THEN s
                    ELSE Encode(s, RegTab))
SetEncHost(u, s) ==
    IF s = <<>> THEN ClearHost(u)
    ELSE IF HostKind(s) # Bad THEN PutHost(u, s) ELSE Refuse(u)

ClearPort(u) == IF u.au /\ ~u.hu /\ u.host = <<>> THEN Unamb(u, DropAuth(u))
                ELSE Ok([u EXCEPT !.hport = FALSE, !.port = <<>>])
PutPort(u, s) == Unamb(u, [u EXCEPT !.au = TRUE, !.hport = TRUE, !.port = s])
SetPort(u, s) == IF s = <<>> THEN ClearPort(u)
                 ELSE IF All(s, DigitTab) THEN PutPort(u, s) ELSE Refuse(u)
SetPortPart(u, s) == IF s = <<>> THEN ClearPort(u)
                     ELSE IF s[1] = Colon /\ All(After(s, 1), DigitTab)
                          THEN PutPort(u, After(s, 1)) ELSE Refuse(u)

SetPath(u, s) == IF PctValid(s, PathTab) THEN Unamb(u, [u EXCEPT !.path = s]) ELSE Refuse(u)

ClearQuery(u)  == Ok([u EXCEPT !.hq = FALSE, !.query = <<>>])
PutQuery(u, e) == Ok([u EXCEPT !.hq = TRUE, !.query = e])
SetQuery(u, s) == IF s = <<>> THEN ClearQuery(u) ELSE PutQuery(u, Encode(s, QueryTab))
SetEncQuery(u, s) == IF s = <<>> THEN ClearQuery(u)
                     ELSE IF PctValid(s, QueryTab) THEN PutQuery(u, s) ELSE Refuse(u)
SetQueryPart(u, s) == IF s = <<>> THEN ClearQuery(u)
                      ELSE IF s[1] = Quest /\ PctValid(After(s, 1), QueryTab)
                           THEN PutQuery(u, After(s, 1)) ELSE Refuse(u)

ClearFrag(u)  == Ok([u EXCEPT !.hf = FALSE, !.frag = <<>>])
PutFrag(u, e) == Ok([u EXCEPT !.hf = TRUE, !.frag = e])
SetFrag(u, s) == IF s = <<>> THEN ClearFrag(u) ELSE PutFrag(u, Encode(s, QueryTab))
SetEncFrag(u, s) == IF s = <<>> THEN ClearFrag(u)
                    ELSE IF PctValid(s, QueryTab) THEN PutFrag(u, s) ELSE Refuse(u)
SetFragPart(u, s) == IF s = <<>> THEN ClearFrag(u)
                     ELSE IF s[1] = Hash /\ PctValid(After(s, 1), QueryTab)
                          THEN PutFrag(u, After(s, 1)) ELSE Refuse(u)

Normalize(u) == Ok([u EXCEPT !.sch = Lower(u.sch)])

-----------------------------------------------------------------------------
(* segment edits: edits of the list Segs(u.path); positions count from 0 *)

IsRel(u) == u.path # <<>> /\ u.path[1] # Slash
WithSegs(u, L) ==
    [u EXCEPT !.path = IF L = <<>> THEN <<>>
                       ELSE IF IsRel(u) THEN Join(L, Slash)
                       ELSE <<Slash>> \o Join(L, Slash)]
Readable(u, L) == LET v == WithSegs(u, L) IN ~Amb(v) /\ Segs(v.path) = L

LIns(L, i, e)   == SubSeq(L, 1, i) \o <<e>> \o SubSeq(L, i + 1, Len(L))
LRep(L, i, e)  == SubSeq(L, 1, i) \o <<e>> \o SubSeq(L, i + 2, Len(L))
LDel(L, i, j)    == SubSeq(L, 1, i) \o SubSeq(L, j + 1, Len(L))

PutSegs(u, L, i) == IF Readable(u, L) THEN OkPos(WithSegs(u, L), i) ELSE Refuse(u)

SegInsert(u, i, e)  == PutSegs(u, LIns(Segs(u.path), i, e), i + 1)
SegReplace(u, i, e) == PutSegs(u, LRep(Segs(u.path), i, e), i + 1)
SegEnc(u, s, r)     == IF PctValid(s, PCharTab) THEN r ELSE Refuse(u)

\* erase cannot fail: what would read differently keeps one leading "."
SegErase(u, i, j) ==
    IF i = j THEN OkPos(u, i)
    ELSE LET L == LDel(Segs(u.path), i, j)
         IN  IF Readable(u, L) THEN OkPos(WithSegs(u, L), i)
             ELSE OkPos(WithSegs(u, <<<<Dot>>>> \o L), i + 1)

-----------------------------------------------------------------------------
(* all modifiers; s is the text argument, i and j positions *)

Apply(u, op, s, i, j) ==
    CASE op = "set_encoded_url"       -> SetUrl(u, s)
      [] op = "set_encoded_origin"    -> SetOrigin(u, s)
      [] op = "set_scheme"            -> SetScheme(u, s)
      [] op = "set_encoded_authority" -> SetAuthority(u, s)
      [] op = "set_encoded_userinfo"  -> SetEncUserinfo(u, s)
      [] op = "set_userinfo_part"     -> SetUserinfoPart(u, s)
      [] op = "set_user"              -> SetUser(u, s)
      [] op = "set_encoded_user"      -> SetEncUser(u, s)
      [] op = "set_password"          -> SetPassword(u, s)
      [] op = "set_encoded_password"  -> SetEncPassword(u, s)
      [] op = "set_password_part"     -> SetPasswordPart(u, s)
      [] op = "set_host"              -> SetHost(u, s)
      [] op = "set_encoded_host"      -> SetEncHost(u, s)
      [] op = "set_port"              -> SetPort(u, s)
      [] op = "set_port_n"            -> SetPort(u, s)   \* s: the number in decimal
      [] op = "set_port_part"         -> SetPortPart(u, s)
      [] op = "set_encoded_path"      -> SetPath(u, s)
      [] op = "set_query"             -> SetQuery(u, s)
      [] op = "set_encoded_query"     -> SetEncQuery(u, s)
      [] op = "set_query_part"        -> SetQueryPart(u, s)
      [] op = "set_fragment"          -> SetFrag(u, s)
      [] op = "set_encoded_fragment"  -> SetEncFrag(u, s)
      [] op = "set_fragment_part"     -> SetFragPart(u, s)
      [] op = "normalize"             -> Normalize(u)
      [] op = "normalize_scheme"      -> Normalize(u)
      [] op = "seg_insert"            -> SegInsert(u, i, Encode(s, PCharTab))
      [] op = "seg_insert_encoded"    -> SegEnc(u, s, SegInsert(u, i, s))
      [] op = "seg_replace"           -> SegReplace(u, i, Encode(s, PCharTab))
      [] op = "seg_replace_encoded"   -> SegEnc(u, s, SegReplace(u, i, s))
      [] op = "seg_erase"             -> SegErase(u, i, i + 1)
      [] op = "seg_erase_range"       -> SegErase(u, i, j)

SetOps == {"set_encoded_url", "set_encoded_origin", "set_scheme",
  "set_encoded_authority", "set_encoded_userinfo", "set_userinfo_part",
  "set_user", "set_encoded_user", "set_password", "set_encoded_password",
  "set_password_part", "set_host", "set_encoded_host", "set_port", "set_port_n",
  "set_port_part", "set_encoded_path", "set_query", "set_encoded_query",
  "set_query_part", "set_fragment", "set_encoded_fragment", "set_fragment_part"}
NormOps == {"normalize", "normalize_scheme"}
SegInsOps == {"seg_insert", "seg_insert_encoded"}
SegRepOps == {"seg_replace", "seg_replace_encoded"}
SegOps  == SegInsOps \cup SegRepOps \cup {"seg_erase", "seg_erase_range"}
PlainOps == {"set_user", "set_password", "set_host", "set_query", "set_fragment",
             "seg_insert", "seg_replace"}

-----------------------------------------------------------------------------
(* parameter lookup (key is plain text), scheme names *)

Matches(u, key) == LET P == Params(u)
                   IN  SelectSeq(Tup([i \in 1..Len(P) |-> i]), LAMBDA i : Decode(P[i][1]) = key)
\* contains, count, find (position, -> number of params if absent), operator[], at
Lookup(u, key) ==
    LET M == Matches(u, key)
        P == Params(u)
    IN  [contains |-> IF M = <<>> THEN 0 ELSE 1,
         count    |-> Len(M),
         find     |-> IF M = <<>> THEN Len(P) ELSE M[1] - 1,
         index    |-> IF M = <<>> THEN <<>> ELSE Decode(P[M[1]][2]),
         at       |-> IF M = <<>> THEN <<>> ELSE Decode(P[M[1]][2]),
         atres    |-> IF M = <<>> THEN "out_of_range" ELSE "ok"]

\* ftp, file, http, https, ws, wss
SchemeNames == << <<102,116,112>>, <<102,105,108,101>>, <<104,116,116,112>>,
                  <<104,116,116,112,115>>, <<119,115>>, <<119,115,115>> >>
SchemeId(s) == LET I == {i \in 1..6 : SchemeNames[i] = Lower(s)}
               IN  IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
=============================================================================
