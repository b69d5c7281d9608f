------------------------------ MODULE MCStretch ------------------------------
(* Alphabets and calls for Stretch; the .cfg files pick. *)
EXTENDS Stretch

z == <<122>>  p == <<124>>  e == <<37, 55, 67>>  sy == <<47, 121>>  ay == <<38, 121>>
a == <<97>>
Delims == {<<58>>, <<47>>, <<63>>, <<35>>, <<64>>, <<47, 47>>}
\* for parsing
AlphaParse == {z, e, ay, a, <<61>>} \cup Delims
\* lists
AlphaList == {sy, ay, <<47>>, <<63>>, <<38>>, a, z}
Nothing == <<>>
Site == <<47, 47, 104>>
\* for calls: no lists, positions are positions
AlphaCalls == {z, e, a, <<49>>} \cup Delims
AlphaHost == {<<47, 47>>, <<91>>, <<93>>, <<58>>, <<58, 58>>, <<46>>, <<49>>, <<118, 49, 46>>, z, e}
AlphaQuery == {<<63>>, <<38>>, <<61>>, z, e, a, <<35>>}

Plain == {"set_user", "set_password", "set_host", "set_query", "set_fragment"}
AllCalls ==
    {<<op, x, 0, 0>> : op \in Plain, x \in {<<>>, z, p \o a, z \o <<58>> \o p}} \cup
    {<<op, x, 0, 0>> : op \in {"set_encoded_user", "set_encoded_password", "set_encoded_host", "set_encoded_query",
                                "set_encoded_fragment", "set_encoded_path", "set_encoded_userinfo", "set_scheme"},
                        x \in {z, e \o a, z \o <<58>> \o z, p, <<37>> \o z}} \cup
    {<<"set_encoded_path", x, 0, 0>> : x \in {<<47>> \o z, z \o <<47>> \o e, <<47, 47>> \o z}} \cup
    {<<"set_encoded_authority", x, 0, 0>> : x \in {z \o <<58>> \o e \o <<64>> \o z \o <<58, 49>>, <<91>> \o z \o <<93>>}} \cup
    {<<"set_encoded_origin", z \o <<58, 47, 47>> \o z, 0, 0>>, <<"set_encoded_url", z \o <<58>> \o z \o <<63>> \o e, 0, 0>>,
     <<"normalize", <<>>, 0, 0>>, <<"set_port", <<49>>, 0, 0>>, <<"set_password_part", <<58>> \o z, 0, 0>>} \cup
    {<<op, x, i, 0>> : op \in {"seg_insert", "seg_replace"}, x \in {z, p, <<>>, z \o <<58>>}, i \in {0, 1}} \cup
    {<<op, x, i, 0>> : op \in {"seg_insert_encoded", "seg_replace_encoded"}, x \in {z, e, p}, i \in {0, 1}} \cup
    {<<"seg_erase", <<>>, i, 0>> : i \in {0, 1}}
NoCalls == {}
=============================================================================
