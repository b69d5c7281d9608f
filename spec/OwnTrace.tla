------------------------------ MODULE OwnTrace ------------------------------
(* Trace validation for Ownership (see UrlTrace for how this works). *)
EXTENDS UrlModel, Json, IOUtils, Integers

OW == INSTANCE Ownership WITH Texts <- {}, Depth <- 0, own <- <<>>, hist <- <<>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES l, own, lost
vars == <<l, own, lost>>
Init == l = 1 /\ own = OW!Own0 /\ lost = FALSE

Reject(bad, x) == IF bad THEN PrintT("REJ " \o ToString(<<l, {"C21"}, x>>)) ELSE TRUE

After1(ev) ==
    CASE ev.a = "new"    -> OW!Own0
      [] ev.a = "fill"   -> OW!Fill(own, ev.b, ev.s)
      [] ev.a = "free"   -> OW!Free(own, ev.b)
      [] ev.a \in {"url", "set", "assign"} -> OW!MakeUrl(own, ev.b)
      [] ev.a = "view"   -> OW!MakeView(own, ev.v, ev.b)
      [] ev.a = "copy"   -> OW!CopyView(own, ev.v, ev.b)

\* ev.u: what the url shows; ev.w[v]: what view v shows (<<>>: there is none)
\* without the observations a view cannot make (password_part, index 15)
NoPart(o) == Tup([i \in 1..37 |-> IF i = 15 THEN <<>> ELSE o[i]])
Seen(ev, o) ==
    /\ ev.u = NoPart(Obs(Parse(o.url).u))
    /\ \A v \in 1..2 : IF o.view[v] = 0 THEN ev.w[v] = <<>>
                       ELSE ev.w[v] = NoPart(Obs(Parse(OW!Shown(o, v)).u))
DoStep(ev) ==
    /\ ev.k = "Y"
    /\ LET o == After1(ev) IN Reject(~Seen(ev, o), ev.a) /\ own' = o /\ lost' = ~Seen(ev, o)
DoCrash(ev) == ev.k = "X" /\ Reject(TRUE, "crash") /\ lost' = TRUE /\ UNCHANGED own
Skip(ev) == ev.k = "Y" /\ lost /\ ev.a # "new" /\ UNCHANGED <<own, lost>>

Next == /\ l <= N
        /\ l' = l + 1
        /\ LET ev == Trace[l]
           IN  DoCrash(ev) \/ Skip(ev) \/ ((~lost \/ (ev.k = "Y" /\ ev.a = "new")) /\ DoStep(ev))
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").diameter - 1 = N
=============================================================================
