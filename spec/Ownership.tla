----------------------------- MODULE Ownership -----------------------------
(***************************************************************************)
(* Who owns the characters.  The caller has buffers, which it fills,       *)
(* overwrites and frees.  A url takes a copy of what it is given; a        *)
(* url_view, and every copy of it, refers to the buffer it was made from.  *)
(* Texts are of one shape (they differ in letters only), so a view of an   *)
(* overwritten buffer is a view of the new text.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* ---- steps on [buf, url, view]; OwnTrace uses them on recorded calls ------
Gone == <<>>            \* texts are not empty
Own0 == [buf |-> <<Gone, Gone>>, url |-> <<>>, view |-> <<0, 0>>]

Fill(o, b, t)     == [o EXCEPT !.buf[b] = t]
Free(o, b)        == [o EXCEPT !.buf[b] = Gone,
                               !.view = [v \in 1..2 |-> IF o.view[v] = b THEN 0 ELSE o.view[v]]]
MakeUrl(o, b)     == [o EXCEPT !.url = o.buf[b]]
MakeView(o, v, b) == [o EXCEPT !.view[v] = b]
CopyView(o, v, w) == [o EXCEPT !.view[v] = o.view[w]]

\* what is seen
Shown(o, v) == o.buf[o.view[v]]

-----------------------------------------------------------------------------
CONSTANTS Texts, Depth
VARIABLES own, hist
vars == <<own, hist>>

Init == own = Own0 /\ hist = <<>>
Step(o, h) == own' = o /\ hist' = Append(hist, h)
Live == {b \in 1..2 : own.buf[b] # Gone}
Next == /\ Len(hist) < Depth
        /\ \/ \E b \in 1..2, t \in Texts : Step(Fill(own, b, t), <<"fill", b, t>>)
           \/ \E b \in Live : Step(Free(own, b), <<"free", b, <<>>>>)
           \/ \E b \in Live, how \in {"url", "set", "assign"} : Step(MakeUrl(own, b), <<how, b, <<>>>>)
           \/ \E v \in 1..2, b \in Live : Step(MakeView(own, v, b), <<"view", b, <<v>>>>)
           \/ \E v \in 1..2, w \in 1..2 : v # w /\ own.view[w] # 0 /\ Step(CopyView(own, v, w), <<"copy", w, <<v>>>>)
Spec == Init /\ [][Next]_vars

NoDangling == \A v \in 1..2 : own.view[v] # 0 => own.view[v] \in Live
\* a url changes only when it is given a text; then it has that text
UrlOwns == [][LET h == hist'[Len(hist')]
              IN  IF h[1] \in {"url", "set", "assign"} THEN own'.url = own.buf[h[2]]
                  ELSE own'.url = own.url]_vars
\* a view shows what is in its buffer now, as does every copy of it
ViewShows == [][LET h == hist'[Len(hist')]
                IN  /\ h[1] = "fill" => \A v \in 1..2 : own'.view[v] = h[2] => Shown(own', v) = h[3]
                    /\ h[1] = "copy" => Shown(own', h[3][1]) = Shown(own, h[2])
                    /\ h[1] \notin {"view", "copy", "free"} => own'.view = own.view]_vars
Emit == Len(hist) = Depth => PrintT("HIST " \o ToString(hist))
=============================================================================
