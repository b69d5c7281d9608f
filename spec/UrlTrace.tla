------------------------------ MODULE UrlTrace ------------------------------
(***************************************************************************)
(* Trace validation: is what the code did a behaviour of the model?        *)
(*                                                                         *)
(* The trace (environment variable TRACE, one JSON object per line) is     *)
(* what the executor recorded from the real library: the call, its         *)
(* arguments, how it ended, and every public observation afterwards.  The  *)
(* state is the model's url in each of two slots.  Each step consumes one  *)
(* line, lets the model make the same call, and compares.  A disagreement  *)
(* is printed as a REJ line naming the properties it breaks; the rest of   *)
(* that history is then skipped if the url's text itself is in doubt.      *)
(***************************************************************************)
EXTENDS UrlModel, Json, IOUtils, Integers

\* only its laws of objects and steps are used
ST == INSTANCE UrlStore WITH Lens <- {}, Depth <- 0, obj <- <<>>, heap <- <<>>, next <- 0, hist <- <<>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES l,       \* next line
          us,      \* the model's urls in slots 1 and 2
          sto,     \* where the urls in slots 1 and 2 keep their characters
          lost     \* the rest of this history cannot be judged

vars == <<l, us, sto, lost>>

-----------------------------------------------------------------------------
(* What an observation says about the properties that hold at every moment: *)
(* judged on the observation alone, whatever the model expected.            *)

DecOf(e, d) == d = Decode(e)
Concat(o) == (IF o[4] # <<>> THEN Append(o[4], Colon) ELSE <<>>) \o
             (IF o[6] = <<1>> THEN <<Slash, Slash>> \o o[7] ELSE <<>>) \o
             o[22] \o o[25] \o o[28]
TextBad(o)  == o[1] # Concat(o) \/ o[2] # <<Len(o[1])>> \/ o[3] # <<1, 1>>
HostBad(o)  == \/ o[16] # <<HostKind(o[18])>>
               \/ o[17] # IF HostKind(o[18]) = Name THEN Decode(o[18]) ELSE o[18]
DecBad(o)   == \/ ~DecOf(o[11], o[12]) \/ ~DecOf(o[13], o[14])
               \/ o[16] = <<Name>> /\ ~DecOf(o[18], o[17])
               \/ ~DecOf(o[23], o[24]) \/ ~DecOf(o[26], o[27])
               \/ o[32] # DecodeAll(o[30]) \/ o[36] # DecodePairs(o[34])
               \/ o[37] # <<1>>
SegBad(path, n, f, b) == LET S == Segs(path) IN n # Count(S) \/ f # S \/ b # Reverse(S)
ParBad(qp, n, f, b) ==
    LET S == Params([EmptyUrl EXCEPT !.hq = (qp # <<>>), !.query = After(qp, 1)])
    IN  n # Count(S) \/ f # S \/ b # Reverse(S)

StateTags(o) ==
    (IF HostBad(o) THEN {"C03"} ELSE {}) \cup
    (IF TextBad(o) THEN {"C04"} ELSE {}) \cup
    (IF DecBad(o)  THEN {"C11"} ELSE {}) \cup
    (IF SegBad(o[22], o[29], o[30], o[31]) THEN {"C12"} ELSE {}) \cup
    (IF ParBad(o[25], o[33], o[34], o[35]) THEN {"C14"} ELSE {})

\* d: observations that differ from o in another way of looking at the same
\* text: <<way, index, value>> with way 1 = const containers of the same object,
\* 2 = url_view of the text, 3 = url of the text; index 0 = it was refused.
\* Seen(o, d, w) is the whole observation made in way w.
Seen(o, d, w) ==
    LET K == {k \in 1..Len(d) : d[k][1] = w /\ d[k][2] # 0}
    IN  Tup([i \in 1..37 |-> IF \E k \in K : d[k][2] = i
                              THEN d[CHOOSE k \in K : d[k][2] = i][3] ELSE o[i]])
Ways(d) == {d[k][1] : k \in 1..Len(d)}
AllStateTags(o, d) ==
    StateTags(o) \cup UNION {StateTags(Seen(o, d, w)) : w \in Ways(d)}

\* the text reparses to what the object reports
ReparseTags(o, d) ==
    IF Ways(d) \cap {2, 3} # {} THEN {"C05"}
    ELSE LET P == Parse(o[1])
         IN  IF P.ok /\ Obs(P.u) = o THEN {} ELSE {"C05"}

Parts == 4..28 \ {12, 14, 16, 17, 24, 27}     \* the encoded accessors and has_*
Diff(o, e) == IF o = e THEN {} ELSE {i \in 1..37 : o[i] # e[i]}

-----------------------------------------------------------------------------
(* parsing: url(s), url_view(s) and set_encoded_url(s) *)

ParsedTags(s, u, o, d) ==
    LET e == Obs(u)
    IN  IF o = e /\ d = <<>> THEN {}
        ELSE AllStateTags(o, d) \cup
             (IF Diff(o, e) \cap Parts # {} THEN {"C02"} ELSE {}) \cup
             (IF Ways(d) \cap {2, 3} # {} THEN {"C02"} ELSE {}) \cup
             (IF \E w \in Ways(d) : Seen(o, d, w)[1] # s THEN {"C04"} ELSE {}) \cup
             (IF o[1] # s THEN {"C04"} ELSE {})

ParseVerdict(ev) ==
    LET P   == Parse(ev.s)
        acc == IF P.ok THEN "ok" ELSE "invalid_part"
        rb  == ev.r[1] # acc \/ ev.r[2] # acc \/ ev.r[3] # acc
    IN  IF rb THEN {"C01"} \cup (IF ev.r[3] # acc THEN {"C08"} ELSE {})
        ELSE IF ~P.ok THEN {}
        ELSE ParsedTags(ev.s, P.u, ev.o, ev.d) \cup
             (IF 3 \in Ways(ev.d) THEN {"C05", "C06"} ELSE {})

-----------------------------------------------------------------------------
(* modifiers *)

Own == [op \in PlainOps |->
    CASE op = "set_user"     -> {11, 12}
      [] op = "set_password" -> {13, 14}
      [] op = "set_host"     -> {17, 18}
      [] op = "set_query"    -> {23, 24}
      [] op = "set_fragment" -> {26, 27}
      [] OTHER               -> {22, 30, 32}]

IsClear(ev) == ev.op \in SetOps /\ ev.s = <<>>

Objs(ev) == Tup([t \in 1..2 |-> [n |-> ev.st[t][1], cap |-> ev.st[t][2], buf |-> ev.st[t][3]]])
HeapOf(ev) == [b \in {ev.hp[k][1] : k \in 1..Len(ev.hp)} |->
                  ev.hp[CHOOSE k \in 1..Len(ev.hp) : ev.hp[k][1] = b][2]]
\* what holds after any call
StoreTags(ev) ==
    LET O == Objs(ev)
    IN  (IF \A t \in 1..2 : ST!ObjOk(O[t], HeapOf(ev)) THEN {} ELSE {"C19"}) \cup
        (IF ST!Apart(O[1], O[2]) THEN {} ELSE {"C18"})
\* a modification of slot ev.t
OpStoreTags(ev, old) ==
    LET a == old[ev.t]  b == Objs(ev)[ev.t]
    IN  StoreTags(ev) \cup
        (IF ST!Stays(a, b) /\ ST!Keeps(a, b) /\ (ev.fired = 0 /\ b.n <= a.cap => ev.na = 0) THEN {} ELSE {"C19"}) \cup
        (IF ev.res # "ok" /\ <<a.cap, a.buf>> # <<b.cap, b.buf>> THEN {"C09"} ELSE {}) \cup
        (IF old[3 - ev.t] # Objs(ev)[3 - ev.t] THEN {"C18"} ELSE {})
CopyStoreTags(ev, old) ==
    LET o == 3 - ev.t
    IN  StoreTags(ev) \cup
        (IF ev.op \in {"assign", "selfassign"} /\ ev.res # "ok" /\ old[ev.t] # Objs(ev)[ev.t] THEN {"C09"} ELSE {}) \cup
        (IF ev.op # "move" /\ old[o] # Objs(ev)[o] THEN {"C18"} ELSE {})

\* the call ended in the wrong way (res instead of ex)
ResTags(ev, ex) ==
    (IF ev.op \in SetOps THEN {"C08"} ELSE {}) \cup
    (IF ev.op \in SegOps THEN {"C13"} ELSE {}) \cup
    (IF ev.op \in NormOps THEN {"C16"} ELSE {}) \cup
    (IF IsClear(ev) /\ ex = "ok" THEN {"C07"} ELSE {}) \cup
    (IF ev.op \in PlainOps /\ ev.s # <<>> /\ ex = "ok" THEN {"C10"} ELSE {}) \cup
    (IF ev.c17 = 1 THEN {"C17"} ELSE {})

\* it returned as it should, with a wrong url (D: what differs)
ChangeTags(ev, D) ==
    (IF D \cap Parts # {}
     THEN (IF ev.op \in SetOps THEN IF IsClear(ev) THEN {"C07"} ELSE {"C06"} ELSE {}) \cup
          (IF ev.op \in NormOps THEN {"C16"} ELSE {}) \cup
          (IF ev.c17 = 1 THEN {"C17"} ELSE {})
     ELSE {}) \cup
    (IF ev.op \in SegOps /\ D \cap (Parts \cup {29, 30}) # {} THEN {"C13"} ELSE {}) \cup
    (IF ev.op \in PlainOps /\ ev.s # <<>> /\ D \cap Own[ev.op] # {} THEN {"C10"} ELSE {})

OpVerdict(ev, u, R, old) ==
    LET fired == ev.fired = 1
        \* mx: the most characters the allocator provides at once (0: any)
        n0    == Len(Unparse(u))
        n1    == Len(Unparse(R.u))
        big   == /\ ev.mx # 0 /\ ~fired /\ R.res = "ok"
                 /\ \/ n1 > old[ev.t].cap /\ n1 + 1 > ev.mx
                    \/ ev.res = "too_large" /\ n0 + n1 + 1 > ev.mx
        res   == IF fired THEN "bad_alloc" ELSE IF big THEN "too_large" ELSE R.res
        e     == IF res = "ok" THEN Obs(R.u) ELSE Obs(u)
        D     == Diff(ev.o, e)
        posok == res = "ok" /\ ev.op \in SegOps => ev.pos = R.pos
        SO    == OpStoreTags(ev, old)
    IN  IF D = {} /\ ev.d = <<>> /\ ev.res = res /\ ev.self = 1 /\ posok THEN SO
        ELSE SO \cup AllStateTags(ev.o, ev.d) \cup ReparseTags(ev.o, ev.d) \cup
             (IF Ways(ev.d) \cap {4, 6} # {} THEN {"C21"} ELSE {}) \cup
             (IF ev.res # res THEN IF fired THEN {"C09"} ELSE IF big THEN {"C19"} ELSE ResTags(ev, res)
              ELSE (IF ev.self # 1 /\ ev.op \in SetOps THEN {"C06"} ELSE {}) \cup
                   (IF ~posok THEN {"C13"} ELSE {}) \cup
                   (IF res = "ok" THEN ChangeTags(ev, D) ELSE {})) \cup
             \* the call threw: everything must be as before
             (IF ev.res # "ok" /\ ev.o # Obs(u) THEN {"C09"} ELSE {})

\* after a disagreement, go on from the url the object says it is, if it says
\* so consistently
Consistent(o) == LET P == Parse(o[1]) IN P.ok /\ Obs(P.u) = o

-----------------------------------------------------------------------------
(* parameter lookup and iterator walks on the url, const url, url_view *)

LookupTuple(u, key) == LET x == Lookup(u, key)
    IN <<x.contains, x.count, x.find, x.index, x.at, x.atres>>

LookupVerdict(ev, u) ==
    LET x == LookupTuple(u, ev.s)
    IN  IF \A k \in 1..Len(ev.r) : ev.r[k] = x THEN {} ELSE {"C15"}

\* m: moves (1 or -1) starting at position p; v: what each position shows
\* (<<>> tuple with a single 256 marks end())
RECURSIVE WalkPos(_, _, _)
WalkPos(p, m, k) == IF k = 0 THEN p ELSE WalkPos(p, m, k - 1) + m[k]
WalkVerdict(ev, u) ==
    LET L == IF ev.c = 0 THEN Segs(u.path) ELSE Params(u)
        E == <<256>>
        at(p) == IF p = Len(L) THEN IF ev.c = 0 THEN E ELSE <<E, E>> ELSE L[p + 1]
    IN  IF \A w \in 1..Len(ev.v) : \A k \in 1..Len(ev.m) :
              ev.v[w][k] = at(WalkPos(ev.p, ev.m, k))
        THEN {} ELSE IF ev.c = 0 THEN {"C12"} ELSE {"C14"}

\* r: what is said in one locale and in another
SchemeVerdict(ev) ==
    LET id == SchemeId(ev.s)
    IN  IF \A k \in 1..Len(ev.r) :
              /\ ev.r[k][1] = id
              /\ ev.r[k][2] = (IF id = 0 THEN 0 ELSE 1)
              /\ id # 0 => ev.r[k][3] = SchemeNames[id]
        THEN {} ELSE {"C16"}

-----------------------------------------------------------------------------
(* copy-construct, move-construct, assign: slot ev.t from the other one *)

CopyVerdict(ev, dst, src, old) ==
    LET fired == ev.fired = 1
        e  == Obs(src)
        e0 == Obs(IF ev.op = "selfassign" THEN src ELSE dst)
    IN  CopyStoreTags(ev, old) \cup
        IF fired
        THEN (IF ev.res # "bad_alloc" THEN {"C18", "C09"} ELSE {}) \cup
             (IF ev.op \in {"assign", "selfassign"} /\ ev.o # e0 THEN {"C09", "C18"} ELSE {}) \cup
             (IF ev.o2 # e THEN {"C18"} ELSE {})
        ELSE (IF ev.res # "ok" THEN {"C18"} ELSE {}) \cup
             (IF ev.res = "ok" /\ ev.o # e THEN {"C18"} ELSE {}) \cup
             (IF ev.op = "move"
              THEN (IF Parse(ev.o2[1]).ok /\ ev.o2 = Obs(Parse(ev.o2[1]).u) THEN {} ELSE {"C18"})
              ELSE (IF ev.o2 # e THEN {"C18"} ELSE {}))

-----------------------------------------------------------------------------
(* crashes: ph = 0 in the call itself, i > 0 while making observation i,   *)
(* 100 while reparsing, 200 while destroying the urls                      *)

PhaseTags == [i \in 1..37 |->
    CASE i \in {1, 2, 3}      -> {"C04"}
      [] i \in {12, 14, 24, 27, 37} -> {"C11"}
      [] i = 16               -> {"C03"}
      [] i = 17               -> {"C03", "C11"}
      [] i \in {29, 30, 31}   -> {"C12"}
      [] i = 32               -> {"C11", "C12"}
      [] i \in {33, 34, 35}   -> {"C14"}
      [] i = 36               -> {"C11", "C14"}
      [] OTHER                -> {"C02"}]

CrashTags(ev) ==
    (IF ev.op \in SetOps THEN IF IsClear(ev) THEN {"C07", "C08"} ELSE {"C06", "C08"} ELSE {}) \cup
    (IF ev.op \in PlainOps /\ ev.s # <<>> THEN {"C10"} ELSE {}) \cup
    (IF ev.op \in NormOps THEN {"C16"} ELSE {}) \cup
    (IF ev.op \in SegOps THEN {"C13"} ELSE {}) \cup
    (IF ev.c17 = 1 THEN {"C17"} ELSE {}) \cup {"C05"}

\* th = 1: the call had thrown, 2: its source was then overwritten, or this is
\* not the first look; cp = 1: the history has copies in it
CrashVerdict(ev) ==
    {"C19"} \cup
    (IF ev.th = 2 THEN {"C21"} ELSE {}) \cup
    (IF ev.th = 1 /\ ev.ph \in 1..100 THEN {"C09"} ELSE {}) \cup
    (IF ev.ph = 200 /\ ev.cp = 1 THEN {"C18"} ELSE {}) \cup
    \* a look that fails after a call that worked: something does not read as it has to
    (IF ev.ph \in 1..37
     THEN (PhaseTags[ev.ph] \ (IF ev.kind = "O" THEN {"C02"} ELSE {})) \cup
          (IF ev.kind = "O" /\ ev.th = 0
           THEN (CrashTags(ev) \ {"C08", "C10"}) \cup
                (IF ev.op \in PlainOps /\ ev.s # <<>> /\ ev.ph \in Own[ev.op] THEN {"C10"} ELSE {})
           ELSE {}) \cup
          (IF ev.kind = "A" THEN {"C18"} ELSE {})
     ELSE IF ev.ph = 100 THEN {"C05"}
     ELSE IF ev.ph = 200 THEN {}
     ELSE IF ev.kind = "P" THEN {"C01"}
     ELSE IF ev.kind = "L" THEN {"C15"}
     ELSE IF ev.kind = "W" THEN {"C12", "C14"}
     ELSE IF ev.kind = "S" THEN {"C16"}
     ELSE IF ev.kind = "A" THEN {"C18"}
     ELSE IF ev.kind = "B" THEN {"C21"}
     ELSE IF ev.kind = "O" THEN CrashTags(ev)
     ELSE {})

-----------------------------------------------------------------------------

Reject(T, x) == IF T = {} THEN TRUE ELSE PrintT("REJ " \o ToString(<<l, T, x>>))

Init == l = 1 /\ us = <<EmptyUrl, EmptyUrl>> /\ sto = <<ST!Obj0, ST!Obj0>> /\ lost = FALSE

\* who owns the characters: ways 4 (the source was overwritten or freed), 6
\* (looked at again) and 7 (a copy of the view) show the same; the other facts
\* in f hold
DoOwn(ev) ==
    /\ ev.k = "B"
    /\ LET P == Parse(ev.s)
       IN  Reject(IF (ev.r = "ok") # P.ok THEN {"C01"}
                  ELSE IF ~P.ok THEN {}
                  ELSE ParsedTags(ev.s, P.u, ev.o, <<>>) \cup
                       (IF ev.d # <<>> \/ (\E k \in 1..Len(ev.f) : ev.f[k] # 1) THEN {"C21"} ELSE {}), "own")
    /\ UNCHANGED <<us, sto, lost>>

\* an object that other threads look at too
DoShared(ev) ==
    /\ ev.k = "V"
    /\ LET P == Parse(ev.s)
       IN  Reject(IF /\ ev.o = Obs(P.u) /\ ev.d = <<>>
                     /\ ev.r = LookupTuple(P.u, ev.key) /\ ev.id = SchemeId(P.u.sch)
                  THEN {} ELSE {"C22"}, "shared")
    /\ UNCHANGED <<us, sto, lost>>

\* a parse on its own; does not touch the slots
DoParse(ev) ==
    /\ ev.k = "P"
    /\ Reject(ParseVerdict(ev), "parse")
    /\ UNCHANGED <<us, sto, lost>>

\* a history starts: slot 1 holds url(s), slot 2 is empty
DoStart(ev) ==
    /\ ev.k = "H"
    /\ LET P == Parse(ev.s)
           T == IF (ev.r = "ok") # P.ok THEN {"C01"}
                ELSE IF P.ok THEN ParsedTags(ev.s, P.u, ev.o, ev.d) \cup StoreTags(ev)
                ELSE {}
       IN  /\ Reject(T, "start")
           /\ us' = <<IF P.ok THEN P.u ELSE EmptyUrl, EmptyUrl>>
           /\ sto' = Objs(ev)
           /\ lost' = (T # {})

DoOp(ev) ==
    /\ ev.k = "O"
    /\ LET u == us[ev.t]
           R == Apply(u, ev.op, ev.s, ev.i, ev.j)
           T == OpVerdict(ev, u, R, sto)
           T2 == IF "o2" \in DOMAIN ev /\ ev.o2 # Obs(us[3 - ev.t]) THEN {"C18"} ELSE {}
       IN  /\ Reject(T \cup T2, R.res)
           /\ sto' = Objs(ev)
           /\ us' = [us EXCEPT ![ev.t] =
                       IF T \cup T2 = {} THEN IF ev.res # "ok" THEN u ELSE R.u
                       ELSE Parse(ev.o[1]).u]
           /\ lost' = (T \cup T2 # {} /\ (T2 # {} \/ ~Consistent(ev.o)))

DoLookup(ev) ==
    /\ ev.k = "L"
    /\ Reject(LookupVerdict(ev, us[ev.t]), "lookup")
    /\ UNCHANGED <<us, sto, lost>>

\* nothing was done to the url since the last call but look at it
DoLook(ev) ==
    /\ ev.k = "Q"
    /\ Reject(IF ev.o = Obs(us[ev.t]) /\ ev.d = <<>> THEN {} ELSE {"C21"}, "look")
    /\ UNCHANGED <<us, sto, lost>>

DoWalk(ev) ==
    /\ ev.k = "W"
    /\ Reject(WalkVerdict(ev, us[ev.t]), "walk")
    /\ UNCHANGED <<us, sto, lost>>

DoScheme(ev) ==
    /\ ev.k = "S"
    /\ Reject(SchemeVerdict(ev), "scheme")
    /\ UNCHANGED <<us, sto, lost>>

DoCopy(ev) ==
    /\ ev.k = "A"
    /\ LET o == 3 - ev.t
           src == us[IF ev.op = "selfassign" THEN ev.t ELSE o]
           T == CopyVerdict(ev, us[ev.t], src, sto)
           keep == ev.fired = 1 \/ ev.op = "selfassign"
       IN  /\ Reject(T, "copy")
           /\ sto' = Objs(ev)
           /\ us' = [us EXCEPT ![ev.t] = IF keep THEN IF ev.op \in {"assign", "selfassign"} THEN @ ELSE EmptyUrl
                                         ELSE src,
                               ![o] = IF ev.op = "move" /\ ev.fired = 0 THEN Parse(ev.o2[1]).u ELSE @]
           /\ lost' = (T # {})

\* a throwing constructor; a history's end: every buffer was returned
DoEnd(ev) ==
    /\ ev.k = "E"
    /\ Reject((IF ev.live # 0 \/ ev.bad # 0 THEN {"C19"} ELSE {}) \cup
              (IF ev.live # 0 /\ ev.thrown = 1 THEN {"C09"} ELSE {}), "end")
    /\ UNCHANGED <<us, sto, lost>>

DoCrash(ev) ==
    /\ ev.k = "X"
    /\ Reject(CrashVerdict(ev), "crash")
    /\ lost' = TRUE
    /\ UNCHANGED <<us, sto>>

Skip(ev) ==
    /\ ev.k \in {"O", "L", "W", "A", "Q"} /\ lost
    /\ UNCHANGED <<us, sto, lost>>

Next ==
    /\ l <= N
    /\ l' = l + 1
    /\ LET ev == Trace[l]
       IN  \/ DoParse(ev) \/ DoOwn(ev) \/ DoShared(ev) \/ DoStart(ev) \/ DoScheme(ev) \/ DoEnd(ev) \/ DoCrash(ev)
           \/ Skip(ev)
           \/ ~lost /\ (DoOp(ev) \/ DoLookup(ev) \/ DoLook(ev) \/ DoWalk(ev) \/ DoCopy(ev))

Spec == Init /\ [][Next]_vars

\* every line of the trace was consumed
AllConsumed == TLCGet("stats").diameter - 1 = N
=============================================================================
