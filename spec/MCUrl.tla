------------------------------- MODULE MCUrl -------------------------------
(* Pools of first urls and of calls for UrlSpec; the .cfg files pick. *)
EXTENDS UrlSpec

\* readable texts: T("a:b") is the sequence of its bytes
Printable == " !" \o "\"" \o "#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[" \o "\\" \o "]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf(c) == 31 + CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = c
T(x) == Tup([i \in 1..Len(x) |-> CodeOf(SubSeq(x, i, i))])
Ts(X) == {T(x) : x \in X}

Call(op, X) == {<<op, T(x), 0, 0>> : x \in X}
SegCall(op, X, I) == {<<op, T(x), i, 0>> : x \in X, i \in I}

\* ---- the whole machine, one or two arguments for each call -----------------
CallsAll ==
    Call("set_encoded_url", {"", "a:b", "//u@h/x?q#f"}) \cup
    Call("set_encoded_origin", {"", "t:", "t://k:1"}) \cup
    Call("set_scheme", {"", "S", "1"}) \cup
    Call("set_encoded_authority", {"", "v:w@k:2", "k]"}) \cup
    Call("set_encoded_userinfo", {"", "v:", ":", "v@"}) \cup
    Call("set_userinfo_part", {"", "@", "v@", "v"}) \cup
    Call("set_user", {"", ":"}) \cup
    Call("set_encoded_user", {"", "v", ":"}) \cup
    Call("set_password", {"", ":@"}) \cup
    Call("set_encoded_password", {"", "w", ":"}) \cup
    Call("set_password_part", {"", ":", ":w", "w"}) \cup
    Call("set_host", {"", "1.2.3.4", "[::1]", "[:"}) \cup
    Call("set_encoded_host", {"", "1.2.3.4", "%41", "[v1]"}) \cup
    Call("set_port", {"", "7", "x"}) \cup
    Call("set_port_n", {"0", "65535"}) \cup
    Call("set_port_part", {"", ":", ":7", "7"}) \cup
    Call("set_encoded_path", {"", "/", "a", "//x", "a:b", "/?"}) \cup
    Call("set_query", {"", "?#"}) \cup
    Call("set_encoded_query", {"", "&", "#"}) \cup
    Call("set_query_part", {"", "?", "?k=v", "k"}) \cup
    Call("set_fragment", {"", "#%"}) \cup
    Call("set_encoded_fragment", {"", "f", "#"}) \cup
    Call("set_fragment_part", {"", "#", "#f", "f"}) \cup
    Call("normalize", {""})
StartsAll == Ts({"", "s:", "//h", "a:b", "s:a/b", "S://u:p@h:1/a//b?k=v&w#f"})

\* ---- clearing: every shape of authority, everything cleared ----------------
CallsClear == UNION {Call(op, {""}) : op \in SetOps \ {"set_port_n"}} \cup
    Call("set_userinfo_part", {"@"}) \cup Call("set_port_part", {":"}) \cup Call("set_password_part", {":"})
Auths == {"-", "", "h", "u@h", "u:@h", "u:p@h", ":p@h", "@h", ":@h", "h:", "h:8", "u@", "@", "u:p@", ":8", ":",
          "u@:8", "u:p@h:8", "@:", ":p@:"}
Shape(sch, a, path, rest) == sch \o (IF a = "-" THEN "" ELSE "//" \o a) \o path \o rest
StartsShapes == {T(Shape(s, a, p, r)) : s \in {"", "s:"}, a \in Auths,
                    p \in {"", "/", "//x", "/a", "a", "a:b", "a/b:c"}, r \in {"", "?q#f", "?#"}}

\* ---- ambiguity: everything that adds or removes what precedes the path -----
CallsAmb ==
    Call("set_scheme", {"", "t", "t:"}) \cup Call("set_encoded_path", {"", "/", "//", "//a", "a", "a:", ":", "/a:", "./a:", "%"}) \cup
    Call("set_encoded_authority", {"", "k", "@", ":", "[::]", "[", "k/"}) \cup
    Call("set_encoded_origin", {"", "t:", "t://", "t://k", "t://k/p", "t:k?", "t"}) \cup
    Call("set_host", {"k", ""}) \cup Call("set_port", {"1", ""}) \cup Call("set_user", {"v", ""}) \cup
    Call("set_password", {"w", ""}) \cup Call("set_encoded_host", {"k", "[", "%4"}) \cup
    Call("set_encoded_query", {"k", "#", "%zz"}) \cup Call("set_encoded_fragment", {"k", "#", "%"}) \cup
    Call("set_query", {"#"}) \cup Call("set_fragment", {"%"})

\* ---- plain text ------------------------------------------------------------
Plains == {"%", "%41", ":", "@", "/", "?", "#", "[]", "a b", "&=", "+", "~", "1.2.3.4", "[::1]", "[v1.a]"}
CallsPlain == UNION {Call(op, Plains) : op \in {"set_user", "set_password", "set_host", "set_query", "set_fragment"}} \cup
    SegCall("seg_insert", Plains, {0}) \cup SegCall("seg_replace", Plains, {0})

\* ---- segments --------------------------------------------------------------
SegTexts == {"", "a", ":", ".", "%41", "/"}
CallsSeg == SegCall("seg_insert", {"", "a", ":", "/"}, 0..2) \cup SegCall("seg_insert_encoded", {"", "%41", "/"}, 0..2) \cup
    SegCall("seg_replace", {"", "a:"}, 0..2) \cup SegCall("seg_replace_encoded", {"", ":", "#"}, 0..2) \cup
    SegCall("seg_erase", {""}, 0..2) \cup {<<"seg_erase_range", <<>>, i, j>> : i \in 0..3, j \in 0..3}
StartsSeg == Ts({"", "s:", "//h", "s:a", "a", "/a", "/.//x", "s://h?q#f", "./a:b", "a//b"})

\* everything there is
CallsEvery == CallsAll \cup CallsSeg
\* a short list, for small steps in every direction
CallsFew ==
    Call("set_encoded_url", {"", "a:b"}) \cup Call("set_scheme", {"", "S"}) \cup Call("set_encoded_authority", {"", "v@k:"}) \cup
    Call("set_user", {"", "v"}) \cup Call("set_password", {"", "w"}) \cup Call("set_host", {"", "k"}) \cup
    Call("set_port", {"", "7"}) \cup Call("set_encoded_path", {"", "/p", "q"}) \cup Call("set_query", {"", "?"}) \cup
    Call("set_fragment", {"", "#"}) \cup SegCall("seg_insert", {"a", ""}, {0, 1}) \cup SegCall("seg_erase", {""}, {0, 1})
\* calls that are refused, among others that get the url into all its shapes
CallsBad ==
    Call("set_encoded_url", {"%", "a:b"}) \cup Call("set_encoded_origin", {"t", "t://[", "t:"}) \cup Call("set_scheme", {"", "1", "s"}) \cup
    Call("set_encoded_authority", {"", "[", "k:x", "u@k"}) \cup Call("set_encoded_userinfo", {"@", "%", ":"}) \cup
    Call("set_userinfo_part", {"v", "%@"}) \cup Call("set_encoded_user", {":", "%a", "v"}) \cup Call("set_encoded_password", {":", "@"}) \cup
    Call("set_password_part", {"w", ":@"}) \cup Call("set_encoded_host", {"[", "/", "%"}) \cup Call("set_port", {"x", "1x"}) \cup
    Call("set_port_part", {"1", ":x"}) \cup Call("set_encoded_path", {"?", "%", "a:b", "//", "/"}) \cup Call("set_encoded_query", {"#", "%"}) \cup
    Call("set_query_part", {"k", "?#"}) \cup Call("set_encoded_fragment", {"#", "%"}) \cup Call("set_fragment_part", {"f", "#%"}) \cup
    SegCall("seg_insert_encoded", {"/", "", "%"}, {0, 1}) \cup SegCall("seg_replace_encoded", {"?", "", ":"}, {0, 1}) \cup
    SegCall("seg_insert", {"", ":"}, {0})

\* ---- normalization ---------------------------------------------------------
CallsNorm == Call("normalize", {""}) \cup Call("normalize_scheme", {""}) \cup
    Call("set_scheme", {"", "HtTp", "WSS", "Z1+-.", "file"}) \cup Call("set_encoded_path", {"/A%4a", "A:B"}) \cup
    Call("set_host", {"HOST"}) \cup Call("set_encoded_query", {"Q=%4A"}) \cup Call("set_encoded_fragment", {"F"})

\* ---- building up -----------------------------------------------------------
CallsBuild ==
    Call("set_scheme", {"s", "t+1"}) \cup Call("set_encoded_authority", {"k", "u:@[::1]:"}) \cup Call("set_user", {"v"}) \cup
    Call("set_password", {"w"}) \cup Call("set_host", {"h", "1.2.3.4"}) \cup
    Call("set_port", {"8"}) \cup Call("set_encoded_path", {"/p", "p:/q", "//r"}) \cup
    Call("set_encoded_query", {"a=b"}) \cup Call("set_encoded_fragment", {"f"})
=============================================================================
