------------------------------ MODULE PoolTrace ------------------------------
(* Trace validation for static pools (see UrlTrace for how this works). *)
EXTENDS UrlModel, Integers, Json, IOUtils

PL == INSTANCE Pool

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES l, size, ba, blocks,
          url, other,     \* the url in use, and another one in the same pool
          lost
vars == <<l, size, ba, blocks, url, other, lost>>

Init == l = 1 /\ size = 0 /\ ba = 0 /\ blocks = {} /\ url = EmptyUrl /\ other = EmptyUrl /\ lost = FALSE

Reject(bad, x) == IF bad THEN PrintT("REJ " \o ToString(<<l, {"C20"}, x>>)) ELSE TRUE

DoNew(ev) ==
    /\ ev.k = "N"
    /\ size' = ev.size /\ ba' = ev.ba /\ blocks' = {} /\ url' = EmptyUrl /\ other' = EmptyUrl /\ lost' = FALSE

\* a request is granted a block that is inside, aligned and disjoint, or it
\* is refused because it does not fit
DoRequest(ev) ==
    /\ ev.k = "R"
    /\ LET b == <<ev.off, ev.sz>>
           good == IF ev.res = "ok" THEN PL!Grantable(size, ba, blocks, b, ev.al)
                   ELSE ~PL!Fits(size, ba, blocks, ev.sz, ev.al)
       IN  /\ Reject(~good, IF ev.res = "ok" THEN "refuse, or another place" ELSE "grant")
           /\ blocks' = IF good /\ ev.res = "ok" THEN blocks \cup {b} ELSE blocks
           /\ lost' = ~good
    /\ UNCHANGED <<size, ba, url, other>>

\* a url on the pool behaves like any url until a request is refused; then
\* it is unchanged
DoUrl(ev) ==
    /\ ev.k = "U"
    /\ LET R == Apply(url, ev.op, ev.s, ev.i, ev.j)
           res == IF ev.ref = 1 THEN "bad_alloc" ELSE R.res
           v   == IF ev.ref = 1 THEN url ELSE R.u
           good == ev.res = res /\ ev.t = Unparse(v) /\ ev.o = Unparse(other)
       IN  Reject(~good, res) /\ url' = v /\ lost' = ~good
    /\ UNCHANGED <<size, ba, blocks, other>>

\* a copy has the same text as the source and its storage in the same pool; the
\* copy is used from then on. What was there before a refused copy still is.
DoCopy(ev) ==
    /\ ev.k = "K"
    /\ LET res == IF ev.ref = 1 THEN "bad_alloc" ELSE "ok"
           v   == IF ev.ref = 1 \/ ev.op = "move" THEN other ELSE url
           good == ev.res = res /\ (ev.op = "move" => ev.ref = 0) /\ ev.t = Unparse(url) /\ ev.o = Unparse(v)
       IN  Reject(~good, res) /\ other' = v /\ lost' = ~good
    /\ UNCHANGED <<size, ba, blocks, url>>

\* a string through the pool and through the default allocator
DoCompare(ev) ==
    /\ ev.k = "C"
    /\ Reject(IF ev.ref = 1 THEN ev.res # "bad_alloc" ELSE ev.res # "ok" \/ ev.a # ev.b, "same text")
    /\ UNCHANGED <<size, ba, blocks, url, other, lost>>

\* allocators are equal iff they share the pool; a block's content changed; a crash
DoOther(ev) ==
    /\ ev.k \in {"Q", "B", "X"}
    /\ Reject(ev.k # "Q" \/ ev.ok # 1, ev.k)
    /\ lost' = (ev.k # "Q")
    /\ UNCHANGED <<size, ba, blocks, url, other>>

Skip(ev) == ev.k # "N" /\ lost /\ UNCHANGED <<size, ba, blocks, url, other, lost>>

Next ==
    /\ l <= N
    /\ l' = l + 1
    /\ LET ev == Trace[l]
       IN  \/ DoNew(ev) \/ Skip(ev)
           \/ ~lost /\ (DoRequest(ev) \/ DoUrl(ev) \/ DoCopy(ev) \/ DoCompare(ev) \/ DoOther(ev))

Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").diameter - 1 = N
=============================================================================
