------------------------------ MODULE UrlSpec ------------------------------
(***************************************************************************)
(* The url container as a state machine: the state is a url, a step is one *)
(* call of a modifier with any argument of its pool.  TLC explores every   *)
(* url that can be reached and checks, for every call in every one of      *)
(* them, what the properties demand.  The laws are written without using   *)
(* the definition of the modifier they are about.                          *)
(*                                                                         *)
(* The same exploration is the source of conformance tests: EmitEdges      *)
(* prints every call made in every state, and the real code is run on it.  *)
(***************************************************************************)
EXTENDS UrlModel

CONSTANTS Starts,      \* texts of the first urls
          Calls,       \* calls <<op, text, i, j>>
          MaxLen       \* longest text of a url explored

VARIABLE u

\* positions are taken modulo what the path offers, as the executor does
Do(v, c) ==
    LET k == Len(Segs(v.path))
        lo == IF c[3] % (k + 1) <= c[4] % (k + 1) THEN c[3] % (k + 1) ELSE c[4] % (k + 1)
        hi == IF c[3] % (k + 1) <= c[4] % (k + 1) THEN c[4] % (k + 1) ELSE c[3] % (k + 1)
    IN  IF c[1] \in SegInsOps THEN Apply(v, c[1], c[2], c[3] % (k + 1), 0)
        ELSE IF c[1] = "seg_erase_range" THEN Apply(v, c[1], c[2], lo, hi)
        ELSE IF c[1] \in SegOps THEN Apply(v, c[1], c[2], c[3] % k, 0)
        ELSE Apply(v, c[1], c[2], 0, 0)
Can(v, c) == c[1] \in SegRepOps \cup {"seg_erase"} => v.path # <<>>
CallsAt(v) == {c \in Calls : Can(v, c)}

Init == u \in {Parse(t).u : t \in {x \in Starts : Parse(x).ok}}
Small(v) == Len(Unparse(v)) <= MaxLen
Next == \E c \in CallsAt(u) : LET v == Do(u, c).u IN Small(v) /\ u' = v
Spec == Init /\ [][Next]_u

EachCall(P(_, _)) == \A c \in CallsAt(u) : P(c, Do(u, c))
EachOk(P(_, _))   == \A c \in CallsAt(u) : LET R == Do(u, c) IN R.res = "ok" => P(c, R.u)

-----------------------------------------------------------------------------
(* C04, C05: a url always reads back as itself *)
Reparses == LET P == Parse(Unparse(u)) IN P.ok /\ P.u = u

(* C02, C03, C12, C14: what is observed follows from the text *)
Observed == /\ Obs(u) = Obs(Parse(Unparse(u)).u)
            /\ HostKind(u.host) # Bad

(* C09: a call that is refused changes nothing *)
RefusedUnchanged == EachCall(LAMBDA c, R : R.res # "ok" => R.u = u)

-----------------------------------------------------------------------------
(* C06: what a modifier may touch, and what it leaves there *)

Fields == {"hs", "sch", "au", "hu", "user", "hp", "pw", "host", "hport", "port", "path", "hq", "query", "hf", "frag"}
AuthF == {"au", "hu", "user", "hp", "pw", "host", "hport", "port"}
May(op) ==
    CASE op = "set_encoded_url"       -> Fields
      [] op = "set_encoded_origin"    -> AuthF \cup {"hs", "sch"}
      [] op = "set_scheme"            -> {"hs", "sch"}
      [] op = "set_encoded_authority" -> AuthF
      [] op \in {"set_encoded_userinfo", "set_userinfo_part"} -> {"au", "hu", "user", "hp", "pw"}
      [] op \in {"set_user", "set_encoded_user"} -> {"au", "hu", "user"}
      [] op \in {"set_password", "set_encoded_password", "set_password_part"} -> {"au", "hu", "hp", "pw"}
      [] op \in {"set_host", "set_encoded_host"} -> {"au", "host"}
      [] op \in {"set_port", "set_port_n", "set_port_part"} -> {"au", "hport", "port"}
      [] op = "set_encoded_path" -> {"path"}
      [] op \in {"set_query", "set_encoded_query", "set_query_part"} -> {"hq", "query"}
      [] op \in {"set_fragment", "set_encoded_fragment", "set_fragment_part"} -> {"hf", "frag"}
      [] op \in NormOps -> {"sch"}
      [] op \in SegOps  -> {"path"}

FrameHolds == EachOk(LAMBDA c, v : \A f \in Fields \ May(c[1]) : v[f] = u[f])

\* what reads back as the argument (non-empty arguments)
ReadBack(op, v) ==
    CASE op = "set_encoded_url" -> Unparse(v)
      [] op = "set_scheme" -> v.sch
      [] op = "set_encoded_authority" -> AuthorityText(v)
      [] op = "set_encoded_userinfo" -> UserinfoText(v)
      [] op = "set_userinfo_part" -> IF v.hu THEN Append(UserinfoText(v), At) ELSE <<At>>
      [] op = "set_user" -> Decode(v.user)
      [] op = "set_encoded_user" -> v.user
      [] op = "set_password" -> Decode(v.pw)
      [] op = "set_encoded_password" -> v.pw
      [] op = "set_password_part" -> <<Colon>> \o v.pw
      [] op = "set_host" -> HostText(v)
      [] op = "set_encoded_host" -> v.host
      [] op \in {"set_port", "set_port_n"} -> v.port
      [] op = "set_port_part" -> <<Colon>> \o v.port
      [] op = "set_encoded_path" -> v.path
      [] op = "set_query" -> Decode(v.query)
      [] op = "set_encoded_query" -> v.query
      [] op = "set_query_part" -> <<Quest>> \o v.query
      [] op = "set_fragment" -> Decode(v.frag)
      [] op = "set_encoded_fragment" -> v.frag
      [] op = "set_fragment_part" -> <<Hash>> \o v.frag

SetReadsBack == EachOk(LAMBDA c, v :
    /\ c[1] \in SetOps \ {"set_encoded_origin"} /\ c[2] # <<>> => ReadBack(c[1], v) = c[2]
    /\ c[1] = "set_encoded_origin" /\ c[2] # <<>> => StartsWith(c[2], OriginText(v)))

-----------------------------------------------------------------------------
(* C07: clearing.  The component is gone, the text is the old text with    *)
(* one piece cut out, and clearing again changes nothing.                   *)

Gone(op, v) ==
    CASE op = "set_encoded_url" -> v = EmptyUrl
      [] op = "set_encoded_origin" -> ~v.hs /\ ~v.au
      [] op = "set_scheme" -> ~v.hs
      [] op = "set_encoded_authority" -> ~v.au
      [] op \in {"set_encoded_userinfo", "set_userinfo_part"} -> ~v.hu
      [] op \in {"set_user", "set_encoded_user"} -> v.user = <<>> /\ (v.hu => v.hp)
      [] op \in {"set_password", "set_encoded_password", "set_password_part"} -> ~v.hp /\ (v.hu => v.user # <<>>)
      [] op \in {"set_host", "set_encoded_host"} -> v.host = <<>>
      [] op \in {"set_port", "set_port_part"} -> ~v.hport
      [] op = "set_encoded_path" -> v.path = <<>>
      [] op \in {"set_query", "set_encoded_query", "set_query_part"} -> ~v.hq
      [] op \in {"set_fragment", "set_encoded_fragment", "set_fragment_part"} -> ~v.hf
Cut(t, r) == \E i \in 0..Len(r) : /\ SubSeq(r, 1, i) = SubSeq(t, 1, i)
                                  /\ After(r, i) = After(t, i + Len(t) - Len(r))
ClearHolds == EachOk(LAMBDA c, v :
    c[1] \in SetOps /\ c[2] = <<>> =>
        /\ Gone(c[1], v)
        /\ Len(Unparse(v)) <= Len(Unparse(u)) /\ Cut(Unparse(u), Unparse(v))
        /\ LET R == Do(v, c) IN R.res = "ok" /\ R.u = v)

-----------------------------------------------------------------------------
(* C08: a call is refused exactly if its argument is not valid for the     *)
(* component, or the url it asks for would not read back                    *)

\* the url asked for; ok = FALSE if the argument is malformed
Nil  == [known |-> TRUE, ok |-> FALSE, u |-> EmptyUrl]
Wanted(op, s) ==
    LET put(v) == [known |-> TRUE, ok |-> TRUE, u |-> v] IN
    CASE op = "set_scheme" -> IF s = <<>> THEN put([u EXCEPT !.hs = FALSE, !.sch = <<>>])
                              ELSE IF SchemeValid(s) THEN put([u EXCEPT !.hs = TRUE, !.sch = s]) ELSE Nil
      [] op = "set_encoded_path" -> IF PctValid(s, PathTab) THEN put([u EXCEPT !.path = s]) ELSE Nil
      [] op = "set_host" /\ s # <<>> -> put([u EXCEPT !.au = TRUE, !.host = Encode(s, RegTab)])
      [] op = "set_encoded_host" /\ s # <<>> -> IF HostKind(s) # Bad THEN put([u EXCEPT !.au = TRUE, !.host = s]) ELSE Nil
      [] op = "set_port" /\ s # <<>> -> IF All(s, DigitTab) THEN put([u EXCEPT !.au = TRUE, !.hport = TRUE, !.port = s]) ELSE Nil
      [] op = "set_user" /\ s # <<>> -> put([u EXCEPT !.au = TRUE, !.hu = TRUE, !.user = Encode(s, RegTab)])
      [] op = "set_password" /\ s # <<>> -> put([u EXCEPT !.au = TRUE, !.hu = TRUE, !.hp = TRUE, !.pw = Encode(s, UserTab)])
      [] op = "set_encoded_authority" /\ s = <<>> -> put(DropAuth(u))
      [] op = "set_encoded_authority" /\ s # <<>> ->
             LET P == Parse(<<Slash, Slash>> \o s)
             IN  IF P.ok /\ P.u.path = <<>> /\ ~P.u.hq /\ ~P.u.hf THEN put(PutAuth(u, P.u)) ELSE Nil
      [] op \in {"set_query", "set_fragment"} -> put(u)
      [] op = "set_encoded_query" -> IF PctValid(s, QueryTab) THEN put(u) ELSE Nil
      [] op = "set_encoded_fragment" -> IF PctValid(s, QueryTab) THEN put(u) ELSE Nil
      [] OTHER -> [known |-> FALSE, ok |-> FALSE, u |-> EmptyUrl]
ReadsBack(v) == LET P == Parse(Unparse(v)) IN P.ok /\ P.u = v
RefusedExactly == EachCall(LAMBDA c, R :
    LET w == Wanted(c[1], c[2])
    IN  w.known => (R.res = "ok" <=> (w.ok /\ ReadsBack(w.u))))
\* Amb, which the modifiers use, says the same as reading back
AmbExact == EachCall(LAMBDA c, R : R.res # "ok" \/ ~Amb(R.u))

-----------------------------------------------------------------------------
(* C10: plain text comes back, and is never refused for what it contains *)
PlainReadsBack == EachOk(LAMBDA c, v :
    c[1] \in PlainOps \cap SetOps /\ c[2] # <<>> => ReadBack(c[1], v) = c[2])

-----------------------------------------------------------------------------
(* C13: edits of the list of segments *)
SegLaws == EachCall(LAMBDA c, R :
    LET L == Segs(u.path)
        M == Segs(R.u.path)
        k == Len(L)
        i == IF c[1] \in SegInsOps \cup {"seg_erase_range"} THEN c[3] % (k + 1) ELSE IF k = 0 THEN 0 ELSE c[3] % k
        j == c[4] % (k + 1)
        lo == IF i <= j THEN i ELSE j
        hi == IF i <= j THEN j ELSE i
        e == IF c[1] \in {"seg_insert", "seg_replace"} THEN Encode(c[2], PCharTab) ELSE c[2]
        lst == CASE c[1] \in SegInsOps -> InsertAt(L, i + 1, e)
                 [] c[1] \in SegRepOps -> ReplaceAt(L, i + 1, e)
                 [] c[1] = "seg_erase" -> RemoveAt(L, i + 1)
                 [] c[1] = "seg_erase_range" -> SubSeq(L, 1, lo) \o SubSeq(L, hi + 1, k)
                 [] OTHER -> L
        rel(v) == v.path # <<>> /\ v.path[1] # Slash
    IN  c[1] \in SegOps =>
        /\ R.res = "ok" /\ M = lst => /\ u.path # <<>> /\ R.u.path # <<>> => rel(u) = rel(R.u)
                                      /\ u.path = <<>> => ~rel(R.u)
        /\ c[1] \in SegInsOps \cup SegRepOps /\ R.res = "ok" => M = lst
        /\ c[1] \in {"seg_insert", "seg_replace"} /\ R.res # "ok" =>
               \* only because no path of that kind reads back as the list
               LET p == (IF rel(u) THEN <<>> ELSE <<Slash>>) \o Join(lst, Slash)
                   w == [u EXCEPT !.path = p]
               IN  ~(ReadsBack(w) /\ Segs(p) = lst)
        /\ c[1] \in {"seg_erase", "seg_erase_range"} =>
               R.res = "ok" /\ (M = lst \/ M = <<<<Dot>>>> \o lst))

-----------------------------------------------------------------------------
(* C16: normalization *)
NormLaws == LET v == Normalize(u).u
            IN  /\ Normalize(v).u = v
                /\ \A f \in Fields \ {"sch"} : v[f] = u[f]
                /\ v.sch = Lower(u.sch) /\ SchemeId(v.sch) = SchemeId(u.sch)

-----------------------------------------------------------------------------
(* C17: any url is the sum of its parts; independent calls commute *)
OkOr(R) == R.u
Built ==
    LET v0 == EmptyUrl
        v1 == IF u.hs THEN SetScheme(v0, u.sch).u ELSE v0
        v2 == IF u.au /\ AuthorityText(u) # <<>> THEN SetAuthority(v1, AuthorityText(u)).u ELSE v1
        v3 == IF u.path # <<>> THEN SetPath(v2, u.path).u ELSE v2
        v4 == IF u.hq THEN SetQueryPart(v3, <<Quest>> \o u.query).u ELSE v3
    IN  IF u.hf THEN SetFragPart(v4, <<Hash>> \o u.frag).u ELSE v4
\* ("//" alone cannot be set through set_encoded_authority: an empty argument clears)
BuildsUp == (u.au /\ AuthorityText(u) = <<>>) \/ Built = u

Comp(op) ==
    CASE op = "set_scheme" -> 1
      [] op \in {"set_user", "set_encoded_user"} -> 2
      [] op \in {"set_password", "set_encoded_password"} -> 3
      [] op \in {"set_host", "set_encoded_host"} -> 4
      [] op = "set_port" -> 5
      [] op = "set_encoded_path" -> 6
      [] op \in {"set_query", "set_encoded_query"} -> 7
      [] op \in {"set_fragment", "set_encoded_fragment"} -> 8
      [] OTHER -> 0
Commutes == \A c, d \in {x \in Calls : Comp(x[1]) # 0 /\ x[2] # <<>>} :
    Comp(c[1]) < Comp(d[1]) =>
    LET R1 == Do(u, c)
        R2 == Do(u, d)
    IN  R1.res = "ok" /\ R2.res = "ok" =>
        LET S1 == Do(R1.u, d)
            S2 == Do(R2.u, c)
        IN  S1.res = "ok" /\ S2.res = "ok" => S1.u = S2.u

-----------------------------------------------------------------------------
\* prints every call in every state, for the executor
EmitEdges == \A c \in CallsAt(u) : PrintT("EDGE " \o ToString(<<Unparse(u), c[1], c[2], c[3], c[4]>>))
=============================================================================
