----------------------------- MODULE MCStrings -----------------------------
(* Alphabets and frames for UriStrings; the .cfg files pick one of each. *)
EXTENDS UriStrings

a1 == <<97>>  one == <<49>>  colon == <<58>>  slash == <<47>>  quest == <<63>>  hash == <<35>>
at == <<64>>  dot == <<46>>  pct == <<37>>  lbr == <<91>>  rbr == <<93>>  amp == <<38>>  eq == <<61>>
e41 == <<37, 52, 49>>  e3a == <<37, 51, 97>>  e61 == <<37, 54, 49>>  b1 == <<98>>

Bare == {<<<<>>, <<>>>>}

\* C01, C02: all delimiters
TokDelims == {a1, one, colon, slash, quest, hash, at, dot, pct, lbr, rbr}
TokUrl == {a1, colon, slash, <<47, 47>>, quest, hash, at, e41}
\* C03: hosts
TokHost6 == {one, colon, <<58, 58>>, <<49, 46, 50, 46, 51, 46, 52>>, <<97, 98, 99, 100, 58>>}
FrameBr == {<<lbr, rbr>>, << <<91, 49, 58, 49, 58, 49, 58, 49, 58>>, rbr>>, << <<91, 58, 58, 49, 58, 49, 58, 49, 58>>, rbr>>}
FrameBrUrl == {<<<<47, 47>> \o f[1], f[2]>> : f \in FrameBr}
TokHost4 == {<<48>>, <<49>>, <<50>>, <<53>>, <<54>>, dot, <<50, 53, 53>>}
FrameV4 == {<<<<>>, <<46, 48, 46, 49>>>>, << <<49, 46>>, <<46, 50>>>>, <<<<91, 58, 58>>, <<46, 48, 46, 49, 93>>>>}
FrameV4Url == {<<<<47, 47>> \o f[1], f[2]>> : f \in FrameV4}
TokVF == {<<118>>, <<86>>, one, <<102>>, <<103>>, dot, colon, pct}
FrameVF == {<<lbr, rbr>>, << <<91, 118, 49>>, rbr>>, << <<91, 118, 49, 46>>, rbr>>}
FrameVFUrl == {<<<<47, 47>> \o f[1], f[2]>> : f \in FrameVF}
\* C10, C11: bytes and escapes
TokBytes == {<<b>> : b \in Byte}
TokEsc == {pct, <<48>>, <<57>>, a1, <<102>>, <<65>>, <<70>>, <<122>>}
\* C12: paths
TokPath == {slash, a1, colon, e41, dot}
\* C14, C15: queries
TokQuery == {amp, eq, a1, b1, e61, quest}
\* C16: schemes
TokScheme == {<<72>>, <<104>>, <<116>>, <<112>>, <<115>>, <<87>>, <<119>>, <<83>>, <<70>>, one, <<43>>}
=============================================================================
