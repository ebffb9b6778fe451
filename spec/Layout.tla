------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Abstract semantics of a ReactPy layout: component instances, their      *)
(* state, the tree they denote, the browser's copy of it, effects, memo    *)
(* slots, event handlers and the life of the whole layout.                 *)
(*                                                                         *)
(* The state is the record S built by Init0.  Each observable step e has   *)
(*   Bad(S, e)  - the names of the guards of the action that do not hold   *)
(*   Eff(S, e)  - the successor state                                      *)
(* A behaviour is allowed by the specification iff every step has an empty *)
(* Bad set.  LayoutTrace applies them to executions recorded from the real *)
(* code, LayoutMC lets TLC choose the steps (guards as enabling conditions)*)
(* and checks the invariants below in every reachable state.               *)
(*                                                                         *)
(* Instances and nonces are integers; 0 is "none".  A nonce names one      *)
(* construction of a child component by its owner, so a body run that      *)
(* mentions nonce n is bound exactly to one place of one version of the    *)
(* owner's tree.                                                           *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANT MOD            \* state values are 0..MOD-1

Max(a, b) == IF a > b THEN a ELSE b
Put(f, k, v) == (k :> v) @@ f
Del(f, K) == [x \in DOMAIN f \ K |-> f[x]]
Restrict(f, K) == [x \in DOMAIN f \cap K |-> f[x]]
Range(q) == {q[j] : j \in DOMAIN q}
RECURSIVE Concat(_)
Concat(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Concat(Tail(qs))
EmptyF == [x \in {} |-> 0]

(************************ raw trees (what bodies return) *******************)
\* raw node: [k, t, x, key, n, c, v, hs, ch]; k = "e" element, "c" component,
\* "p" context provider, "s" string, "n" None, "err" the body raised
Present(ch) == SelectSeq(ch, LAMBDA y : y.k # "n")

\* duplicate keys inside a provider are reported in the provider's place
RECURSIVE OwnDup(_)
OwnDup(x) ==
  /\ x.k = "e"
  /\ LET p == Present(x.ch) IN
       \/ \E i, j \in DOMAIN p : i < j /\ p[i].key = p[j].key
       \/ \E i \in DOMAIN p : OwnDup(p[i])
ProvDup(x) ==
  LET p == Present(x.ch) IN
       \/ \E i, j \in DOMAIN p : i < j /\ p[i].key = p[j].key
       \/ \E i \in DOMAIN p : OwnDup(p[i])

\* a step of the keyed path that identifies a node among its siblings
Mark(x) == CASE x.k = "p" -> <<"p", x.c, x.key>>
             [] x.k = "c" -> <<"c", x.v, x.key>>
             [] OTHER -> <<"e", 0, x.key>>

\* Comps(x, path, ctx): the component nodes of a tree in rendering order
RECURSIVE Comps(_, _, _)
Comps(x, path, ctx) ==
  LET here == Append(path, Mark(x)) IN
  CASE x.k = "c" -> <<[n |-> x.n, at |-> here, t |-> x.v, cx |-> ctx]>>
    [] x.k = "e" -> Concat([i \in DOMAIN x.ch |-> Comps(x.ch[i], here, ctx)])
    [] x.k = "p" -> Concat([i \in DOMAIN x.ch |-> Comps(x.ch[i], here, Put(ctx, x.c, x.v))])
    [] OTHER -> <<>>

\* Hands(x, path, sh): the event handlers of a tree, sh: whether it is displayed
RECURSIVE Hands(_, _, _)
Hands(x, path, sh) ==
  LET here == Append(path, Mark(x))
      mine == [i \in DOMAIN x.hs |-> [h |-> x.hs[i][2], o |-> x.hs[i][3], ov |-> x.hs[i][4], at |-> Append(here, <<"h", 0, x.hs[i][1]>>), sh |-> sh]]
      sub == sh /\ ~(x.k = "p" /\ ProvDup(x))
  IN  IF x.k \in {"e", "p"}
      THEN mine \o Concat([i \in DOMAIN x.ch |-> Hands(x.ch[i], here, sub)])
      ELSE <<>>

(************************ the browser's tree *******************************)
\* node: [t, x, hs, er, ac, ch]; hs = seq of <<event, handler, target>>
Blank == [t |-> "", x |-> "", hs |-> <<>>, er |-> "", ac |-> -1, ch |-> <<>>]

RECURSIVE HasPath(_, _)
HasPath(nd, p) == p = <<>> \/ (Head(p) \in DOMAIN nd.ch /\ HasPath(nd.ch[Head(p)], Tail(p)))
RECURSIVE NodeAt(_, _)
NodeAt(nd, p) == IF p = <<>> THEN nd ELSE NodeAt(nd.ch[Head(p)], Tail(p))
RECURSIVE SetAt(_, _, _)
SetAt(nd, p, m) == IF p = <<>> THEN m
                   ELSE [nd EXCEPT !.ch = [@ EXCEPT ![Head(p)] = SetAt(@, Tail(p), m)]]

\* the fragments that wrap components are not displayed: splice them away
RECURSIVE Flat(_)
Flat(nd) ==
  IF nd.t = "" /\ nd.er = ""
  THEN Concat([i \in DOMAIN nd.ch |-> Flat(nd.ch[i])])
  ELSE <<[t |-> nd.t, x |-> nd.x, er |-> nd.er,
          hs |-> {<<nd.hs[i][1], nd.hs[i][2]>> : i \in DOMAIN nd.hs},
          ch |-> Concat([i \in DOMAIN nd.ch |-> Flat(nd.ch[i])])]>>

RECURSIVE TargetsOf(_)
TargetsOf(nd) == [i \in DOMAIN nd.hs |-> nd.hs[i][3]]
                 \o Concat([i \in DOMAIN nd.ch |-> TargetsOf(nd.ch[i])])
RECURSIVE AcksOf(_)
AcksOf(nd) == (IF nd.ac # -1 THEN <<[ac |-> nd.ac, hs |-> nd.hs, t |-> nd.t, x |-> nd.x]>> ELSE <<>>)
              \o Concat([i \in DOMAIN nd.ch |-> AcksOf(nd.ch[i])])
RECURSIVE InputsOf(_)
InputsOf(nd) == (IF nd.t \in {"input", "select", "textarea"} /\ nd.hs # <<>> THEN <<nd>> ELSE <<>>)
              \o Concat([i \in DOMAIN nd.ch |-> InputsOf(nd.ch[i])])
Injective(q) == \A i, j \in DOMAIN q : q[i] = q[j] => i = j

(************************ the state ****************************************)
Init0(tr) == [
  init   |-> tr.init,      \* initial slot values per component type
  dbg    |-> tr.dbg, ctxdef |-> tr.ctxdef, asy |-> tr.asy,
  view   |-> Blank,        \* what the browser displays
  updates |-> 0,
  live   |-> {},           \* mounted instances
  gone   |-> {},           \* instances that were unmounted before the last quiet point
  seen   |-> {},
  typ    |-> EmptyF, par |-> EmptyF, slots |-> EmptyF, ver |-> EmptyF, bn |-> EmptyF,
  cx     |-> EmptyF,       \* instance -> context values provided above it
  raw    |-> EmptyF,       \* instance -> its last returned tree
  open   |-> 0,            \* the instance whose body is running
  cause  |-> EmptyF,       \* instance -> <<owner, owner's version>> of the render by its owner, or <<0,0>>
  rd     |-> EmptyF,       \* instance -> the slot values its last body run read
  rdh    |-> EmptyF,       \* <<instance, version>> -> the slot values read then
  credit |-> EmptyF,       \* reasons to run the body not used up yet
  node   |-> (0 :> [p |-> 0, v |-> 0, exp |-> 0, t |-> 0, cx |-> EmptyF]),
  bound  |-> EmptyF,       \* nonce -> instance
  doom   |-> {},           \* nonces of components that an error keeps from being displayed
  kids   |-> EmptyF,       \* instance -> (keyed path -> nonce)
  eff    |-> EmptyF,       \* <<instance, effect>> -> [dep, pend, act, opt]
  aeff   |-> EmptyF,       \* the same for asynchronous effects
  memo   |-> EmptyF,       \* <<instance, slot>> -> [dep, val]
  toks   |-> {},
  hown   |-> EmptyF,       \* handler -> [u, at, v, sl]
  fired  |-> EmptyF,       \* event -> [u, at, v, q, g, n, sure]
  run    |-> EmptyF,       \* event being handled -> element event
  lastst |-> EmptyF,       \* element event -> last started event
  rank   |-> EmptyF,       \* element event -> handler version last started
  started |-> EmptyF,      \* target -> highest seq that may have been taken up
  taken   |-> EmptyF,      \* target -> highest seq that surely was
  snap   |-> EmptyF,       \* instance -> started, when its last body run began
  tsnap  |-> EmptyF,       \* instance -> taken, when the render that includes it began
  settled |-> FALSE,       \* nothing changed since the last quiet point
  state  |-> "open" ]

Live(S, u) == u \in S.live

ErrNode(S, x) == [t |-> "", x |-> "", er |-> x, hs |-> {}, ch |-> <<>>]
MissingNode == [t |-> "?missing", x |-> "", er |-> "", hs |-> {}, ch |-> <<>>]

IsErr(S, u) == S.raw[u].k = "err" \/ OwnDup(S.raw[u])

RECURSIVE Den(_, _)
RECURSIVE DenI(_, _)
\* the tree a raw node denotes, given the latest body results of all instances
Den(S, x) ==
  CASE x.k = "s" -> <<[t |-> "#", x |-> x.x, er |-> "", hs |-> {}, ch |-> <<>>]>>
    [] x.k = "e" -> <<[t |-> x.t, x |-> x.x, er |-> "",
                       hs |-> {<<x.hs[i][1], x.hs[i][2]>> : i \in DOMAIN x.hs},
                       ch |-> Concat([i \in DOMAIN x.ch |-> Den(S, x.ch[i])])]>>
    [] x.k = "p" -> IF ProvDup(x) THEN <<ErrNode(S, IF S.dbg = 1 THEN "*dup" ELSE "~")>>
                    ELSE Concat([i \in DOMAIN x.ch |-> Den(S, x.ch[i])])
    [] x.k = "c" -> IF x.n \in DOMAIN S.bound /\ S.bound[x.n] \in DOMAIN S.raw
                       /\ S.bn[S.bound[x.n]] = x.n
                    THEN DenI(S, S.bound[x.n]) ELSE <<MissingNode>>
    [] OTHER -> <<>>
DenI(S, u) ==
  CASE S.raw[u].k = "err" -> <<ErrNode(S, IF S.dbg = 1 THEN S.raw[u].x ELSE "~")>>
    [] OwnDup(S.raw[u]) -> <<ErrNode(S, IF S.dbg = 1 THEN "*dup" ELSE "~")>>
    [] OTHER -> Den(S, S.raw[u])

\* a node that shows the error message of a hidden error is displayed alike
RECURSIVE HasErr(_)
HasErr(q) == \E i \in DOMAIN q : q[i].er # "" \/ HasErr(q[i].ch)
RECURSIVE NoErrText(_)
NoErrText(q) == [i \in DOMAIN q |-> [q[i] EXCEPT !.er = IF @ = "" THEN "" ELSE "!", !.ch = NoErrText(@)]]
RECURSIVE NoHandlers(_)
NoHandlers(q) == [i \in DOMAIN q |-> [q[i] EXCEPT !.hs = {}, !.ch = NoHandlers(@)]]

RECURSIVE AnyProvDup(_)
AnyProvDup(x) == \/ x.k = "p" /\ ProvDup(x)
                 \/ x.k \in {"e", "p"} /\ \E i \in DOMAIN x.ch : AnyProvDup(x.ch[i])
HasDup(S) == \E u \in DOMAIN S.raw : OwnDup(S.raw[u]) \/ AnyProvDup(S.raw[u])

\* component instances reachable from the displayed tree
RECURSIVE ReachRaw(_, _)
RECURSIVE ReachI(_, _)
ReachRaw(S, x) ==
  CASE x.k = "e" -> UNION {ReachRaw(S, x.ch[i]) : i \in DOMAIN x.ch}
    [] x.k = "p" -> IF ProvDup(x) THEN {} ELSE UNION {ReachRaw(S, x.ch[i]) : i \in DOMAIN x.ch}
    [] x.k = "c" -> IF x.n \in DOMAIN S.bound /\ S.bound[x.n] \in DOMAIN S.raw THEN ReachI(S, S.bound[x.n]) ELSE {}
    [] OTHER -> {}
ReachI(S, u) == {u} \cup (IF IsErr(S, u) THEN {} ELSE ReachRaw(S, S.raw[u]))

\* component nodes of u's displayed tree (a provider whose children clash shows none)
RECURSIVE ShownComps(_)
ShownComps(x) ==
  CASE x.k = "c" -> {x.n}
    [] x.k = "e" -> UNION {ShownComps(x.ch[i]) : i \in DOMAIN x.ch}
    [] x.k = "p" -> IF ProvDup(x) THEN {} ELSE UNION {ShownComps(x.ch[i]) : i \in DOMAIN x.ch}
    [] OTHER -> {}

RECURSIVE Below(_, _)
\* all live instances owned, directly or not, by the instances in U
Below(S, U) == LET D == {w \in S.live : S.par[w] \in U} \ U
               IN IF D = {} THEN U ELSE Below(S, U \cup D)

Root(S) == IF 0 \in DOMAIN S.bound THEN S.bound[0] ELSE 0
Reachable(S) == IF Root(S) = 0 \/ Root(S) \notin DOMAIN S.raw THEN {} ELSE ReachI(S, Root(S))

\* the element event k = <<instance, place>> has a handler in what is displayed
HandlerShown(S, k) ==
  /\ k[1] \in S.live /\ k[1] \in DOMAIN S.raw
  /\ \E h \in DOMAIN S.hown : S.hown[h].sh /\ S.hown[h].u = k[1] /\ S.hown[h].at = k[2] /\ S.hown[h].v = S.ver[k[1]]

(************************ begin: a component body starts *******************)
\* e = [u, t, n, r, sl, cx]
BeginBad(S, e) ==
  LET known == e.n \in DOMAIN S.node
      nd == IF known THEN S.node[e.n] ELSE S.node[0]
      again == e.n \in DOMAIN S.bound
      fresh == e.u \notin S.seen
      pred == IF fresh THEN S.init[e.t + 1] ELSE S.slots[e.u]
      Ctx(c) == IF c \in DOMAIN nd.cx THEN nd.cx[c] ELSE S.ctxdef[c]
  IN  (IF S.state = "closed" THEN {"C06.render_after_close"} ELSE {})
      \cup (IF ~known THEN {"C02.unknown_node"} ELSE {})
      \cup (IF known /\ nd.t # e.t THEN {"C02.type"} ELSE {})
      \* the instance shown at this place is the one that was there, or a new one
      \cup (IF known /\ again /\ S.bound[e.n] # e.u THEN {"C02.rebound"} ELSE {})
      \cup (IF known /\ ~again /\ nd.exp # 0 /\ nd.exp # e.u THEN {"C02.state_lost"} ELSE {})
      \cup (IF known /\ ~again /\ nd.exp = 0 /\ ~fresh THEN {"C02.state_leaked"} ELSE {})
      \cup (IF e.sl # pred THEN {"C02.slots", "C03.value"} ELSE {})
      \cup (IF e.u \in S.gone THEN {"C06.zombie_render"} ELSE {})
      \cup (IF ~fresh /\ again /\ S.credit[e.u] = 0 THEN {"C03.needless_render"} ELSE {})
      \cup (IF known /\ \E i \in DOMAIN e.cx : e.cx[i][2] # Ctx(e.cx[i][1]) THEN {"C08.context"} ELSE {})

BeginEff(S, e) ==
  LET nd == IF e.n \in DOMAIN S.node THEN S.node[e.n] ELSE S.node[0]
      again == e.n \in DOMAIN S.bound /\ S.bound[e.n] = e.u
      old == IF e.u \in DOMAIN S.credit THEN S.credit[e.u] ELSE 0
  IN [S EXCEPT !.live = @ \cup {e.u}, !.seen = @ \cup {e.u},
               !.typ = Put(@, e.u, e.t), !.par = Put(@, e.u, nd.p),
               !.slots = Put(@, e.u, e.sl), !.rd = Put(@, e.u, e.sl),
               !.rdh = Put(@, <<e.u, e.r>>, e.sl),
               !.ver = Put(@, e.u, e.r), !.bn = Put(@, e.u, e.n),
               !.cx = Put(@, e.u, nd.cx),
               !.bound = Put(@, e.n, e.u),
               !.cause = Put(@, e.u, IF again THEN <<0, 0>> ELSE <<nd.p, nd.v>>),
               !.credit = Put(@, e.u, IF again THEN Max(old - 1, 0) ELSE old),
               !.snap = Put(@, e.u, S.started),
               !.tsnap = Put(@, e.u, IF ~again /\ nd.p \in DOMAIN @ THEN @[nd.p] ELSE S.taken),
               !.settled = FALSE ]

(************************ end: it returned a tree (or raised) **************)
\* e = [u, me, ef, raw];  me = <<slot, dep, val>>..., val 0: the computation raised
MemoBad(S, u, m) ==
  LET k == <<u, m[1]>>
      has == k \in DOMAIN S.memo
  IN  IF has /\ m[2] # "*" /\ S.memo[k].dep = m[2]
      THEN (IF m[3] = S.memo[k].val THEN {} ELSE {"C12.recomputed"})
      ELSE (IF m[3] = 0 \/ m[3] \notin S.toks THEN {} ELSE {"C12.stale"})

RECURSIVE MemoAll(_, _, _)
MemoAll(S, u, me) ==
  IF me = <<>> THEN S
  ELSE LET m == Head(me) IN
       MemoAll(IF m[3] = 0 THEN S
               ELSE [S EXCEPT !.memo = Put(@, <<u, m[1]>>, [dep |-> m[2], val |-> m[3]]),
                              !.toks = @ \cup {m[3]}], u, Tail(me))

\* pend: versions whose run of the effect is due; act: version whose clean-up is
\* due; run: version whose asynchronous body is running
NoEff == [k |-> "s", dep |-> "", has |-> FALSE, pend |-> <<>>, act |-> 0, run |-> 0, sh |-> 0]
EffOf(S, u, x) == IF <<u, x>> \in DOMAIN S.eff THEN S.eff[<<u, x>>] ELSE NoEff

RECURSIVE EffAll(_, _, _)
EffAll(S, u, ef) ==      \* schedule the effects whose dependencies changed
  IF ef = <<>> THEN S
  ELSE LET x == Head(ef)[1]
           d == Head(ef)[2]
           o == [EffOf(S, u, x) EXCEPT !.k = Head(ef)[3]]
           due == ~o.has \/ d = "*" \/ o.dep # d
       IN EffAll([S EXCEPT !.eff = Put(@, <<u, x>>,
                    IF due THEN [o EXCEPT !.dep = d, !.has = TRUE, !.pend = Append(@, S.ver[u])] ELSE o)],
                 u, Tail(ef))

EndBad(S, e) == UNION {MemoBad(S, e.u, e.me[i]) : i \in DOMAIN e.me}

Bump(f, k, q) == Put(f, k, Max(q, IF k \in DOMAIN f THEN f[k] ELSE -1))
RECURSIVE BumpAll(_, _, _)
BumpAll(f, fired, I) ==
  IF I = {} THEN f
  ELSE LET i == CHOOSE j \in I : TRUE IN BumpAll(Bump(f, fired[i].g, fired[i].q), fired, I \ {i})

EndEff(S, e) ==
  LET u == e.u
      v == S.ver[u]
      err == e.raw.k = "err" \/ OwnDup(e.raw)
      cs == IF e.raw.k = "err" THEN <<>> ELSE Comps(e.raw, <<>>, S.cx[u])
      hs == IF e.raw.k = "err" THEN <<>> ELSE Hands(e.raw, <<>>, ~err)
      oldk == IF u \in DOMAIN S.kids THEN S.kids[u] ELSE EmptyF
      ExpOf(c) == IF c.at \in DOMAIN oldk /\ oldk[c.at] \in DOMAIN S.bound /\ oldk[c.at] \notin S.doom
                  THEN LET w == S.bound[oldk[c.at]] IN IF w \in S.live THEN w ELSE 0
                  ELSE 0
      newnodes == [n \in {cs[i].n : i \in DOMAIN cs} |->
                     LET c == cs[CHOOSE i \in DOMAIN cs : cs[i].n = n] IN
                     [p |-> u, v |-> v, exp |-> ExpOf(c), t |-> c.t, cx |-> c.cx]]
      shown == IF err THEN {} ELSE ShownComps(e.raw)
      all == DOMAIN cs
      newk == [at \in {cs[i].at : i \in all} |-> cs[CHOOSE i \in all : cs[i].at = at].n]
      kept == {newnodes[newk[at]].exp : at \in DOMAIN newk} \ {0}
      owned == {w \in S.live : S.par[w] = u /\ w # u}
      out == owned \ kept
      dead == IF out = {} THEN {} ELSE Below(S, out)
      newh == [h \in {hs[i].h : i \in DOMAIN hs} |->
                 LET r == hs[CHOOSE i \in DOMAIN hs : hs[i].h = h] IN
                 IF h \in DOMAIN S.hown      \* part of a tree that is displayed again
                 THEN [S.hown[h] EXCEPT !.u = u, !.at = r.at, !.v = v, !.sh = r.sh]
                 ELSE [u |-> u, at |-> r.at, v |-> v, sh |-> r.sh,
                       o |-> r.o, ov |-> r.ov, sl |-> S.rdh[<<r.o, r.ov>>]]]
      places == {hs[i].at : i \in {j \in DOMAIN hs : hs[j].sh}}
      \* events on places that are no longer displayed may be dropped
      lost == {i \in DOMAIN S.fired : S.fired[i].sure /\
                 (S.fired[i].u \in dead \/ (S.fired[i].u = u /\ S.fired[i].at \notin places))}
      S1 == [S EXCEPT !.raw = Put(@, u, e.raw),
                      !.bound = Del(@, DOMAIN newnodes),
                      !.node = newnodes @@ @, !.kids = Put(@, u, newk),
                      !.live = @ \ dead,
                      !.doom = (@ \ DOMAIN newnodes) \cup {n \in {cs[i].n : i \in all} : n \notin shown},
                      !.hown = newh @@ @,
                      !.fired = [i \in DOMAIN @ |-> IF i \in lost THEN [@[i] EXCEPT !.sure = FALSE] ELSE @[i]],
                      !.started = BumpAll(@, S.fired, lost)]
  IN EffAll(MemoAll(S1, u, e.me), u, e.ef)

(************************ set: a state setter is called ********************)
\* e = [u, s, m, v]
NewVal(S, e) == IF e.m = "inc" THEN (S.slots[e.u][e.s] + e.v) % MOD ELSE e.v
SetEff(S, e) ==
  IF e.u \notin DOMAIN S.slots THEN S
  ELSE LET nv == NewVal(S, e) IN
       IF nv = S.slots[e.u][e.s] THEN S
       ELSE [S EXCEPT !.slots = [@ EXCEPT ![e.u] = [@ EXCEPT ![e.s] = nv]],
                      !.settled = FALSE,
                      !.credit = Put(@, e.u, 1 + (IF e.u \in DOMAIN @ THEN @[e.u] ELSE 0))]

(************************ upd: the browser gets an update ******************)
\* e = [path, model].  An acknowledgement of event q on an input element says
\* that the tree was computed after q was taken up.
Owner(S, nd) == LET O == {S.hown[nd.hs[j][2]] : j \in {i \in DOMAIN nd.hs : nd.hs[i][2] \in DOMAIN S.hown}}
                IN IF O = {} THEN [u |-> 0, v |-> 0]
     ELSE LET o == CHOOSE x \in O : TRUE
          IN IF o.o = o.u THEN [u |-> o.o, v |-> o.ov] ELSE [u |-> 0, v |-> 0]
Known(S, nd) == LET o == Owner(S, nd) IN o.u # 0 /\ o.u \in DOMAIN S.snap /\ S.ver[o.u] = o.v
TopSnap(sn, nd) ==
  LET Q == {sn[g] : g \in {nd.hs[j][3] : j \in DOMAIN nd.hs} \cap DOMAIN sn}
  IN IF Q = {} THEN -1 ELSE CHOOSE q \in Q : \A r \in Q : r <= q
AckBad(S, m) ==
  LET as == AcksOf(m) IN
  UNION { (IF as[i].t \notin {"input", "select", "textarea"} THEN {"C11.ack_elsewhere"} ELSE {})
          \cup (IF Known(S, as[i]) /\ as[i].ac > TopSnap(S.snap[Owner(S, as[i]).u], as[i]) THEN {"C11.ack_ahead"} ELSE {})
        : i \in DOMAIN as }
UpdBad(S, e) ==
  (IF S.state = "closed" THEN {"C06.update_after_close"} ELSE {})
  \cup (IF S.updates = 0 /\ e.path # <<>> THEN {"C01.first_update_not_root"} ELSE {})
  \cup (IF ~HasPath(S.view, e.path) THEN {"C01.no_such_place"} ELSE {})
  \cup (IF e.model.t # "" THEN {"C01.not_a_component"} ELSE {})
  \cup AckBad(S, e.model)
UpdEff(S, e) ==
  [S EXCEPT !.view = IF HasPath(@, e.path) THEN SetAt(@, e.path, e.model) ELSE @,
            !.updates = @ + 1]

(************************ effects ******************************************)
\* every component rendered by the same request is done before its effects run
RECURSIVE Top(_, _)
Top(S, u) == LET c == S.cause[u] IN
             IF c[1] # 0 /\ c[1] \in S.live /\ S.ver[c[1]] = c[2] THEN Top(S, c[1]) ELSE u
RECURSIVE Complete(_, _, _)
Complete(S, u, top) ==
  \/ ~top /\ S.cause[u] = <<0, 0>>       \* rendered again by a later request of its own
  \/ /\ u \in DOMAIN S.raw
     /\ \/ IsErr(S, u)
        \/ \A n \in ShownComps(S.raw[u]) : n \in DOMAIN S.bound /\ Complete(S, S.bound[n], FALSE)
EffTooEarly(S, u) == u \in S.live /\ ~Complete(S, Top(S, u), TRUE)

EffStartBad(S, e, w) ==
  LET o == EffOf(S, e.u, e.x) IN
  (IF e.r \notin Range(o.pend) THEN {w \o ".not_scheduled"}
   ELSE IF w = "C04" /\ o.pend[1] # e.r THEN {w \o ".out_of_order"} ELSE {})
  \cup (IF e.u \in DOMAIN S.ver /\ S.ver[e.u] = e.r /\ S.state = "open" /\ EffTooEarly(S, e.u) THEN {w \o ".before_commit"} ELSE {})
  \cup (IF o.act # 0 THEN {w \o ".previous_not_cleaned"} ELSE {})
  \cup (IF o.run # 0 THEN {w \o ".overlap"} ELSE {})
  \cup (IF S.state = "closed" THEN {"C06.effect_after_close"} ELSE {})
  \cup (IF e.u \in S.gone THEN {"C06.effect_after_unmount"} ELSE {})
Without(q, r) == SelectSeq(q, LAMBDA y : y # r)
After(q, r) == SelectSeq(q, LAMBDA y : y > r)
EffRunEff(S, e) ==
  LET o == EffOf(S, e.u, e.x) IN
  [S EXCEPT !.eff = Put(@, <<e.u, e.x>>, [o EXCEPT !.pend = Without(@, e.r), !.act = IF e.cl = 1 THEN e.r ELSE 0])]
\* part of a tree that an error keeps from being displayed
RECURSIVE Doomed(_, _)
Doomed(S, u) ==
  /\ u # 0
  /\ \/ S.bn[u] \in S.doom
     \/ \E n \in S.doom : n \in DOMAIN S.node /\ S.node[n].exp = u
     \/ u # S.par[u] /\ Doomed(S, S.par[u])
CleanBad(S, e, w) ==
  LET o == EffOf(S, e.u, e.x) IN
  (IF o.act # e.r THEN {w \o ".clean_unpaired"} ELSE {})
  \cup (IF S.state = "open" /\ o.act = e.r /\ o.pend = <<>> /\ e.u \in S.live /\ ~Doomed(S, e.u) THEN {w \o ".clean_early"} ELSE {})
CleanEff(S, e) ==
  [S EXCEPT !.eff = Put(@, <<e.u, e.x>>, [EffOf(S, e.u, e.x) EXCEPT !.act = 0])]

\* asynchronous: the body may take several turns and may be cancelled; a run that
\* is superseded before it starts is skipped
ARunEff(S, e) ==
  LET o == EffOf(S, e.u, e.x) IN
  [S EXCEPT !.eff = Put(@, <<e.u, e.x>>, [o EXCEPT !.pend = After(@, e.r), !.run = e.r, !.sh = e.sh])]
ACancelBad(S, e) ==
  LET o == EffOf(S, e.u, e.x) IN
  (IF o.run # e.r THEN {"C05.cancel_unpaired"} ELSE {})
  \cup (IF o.sh = 1 THEN {"C05.shielded_cancelled"} ELSE {})
  \cup (IF S.state = "open" /\ o.pend = <<>> /\ e.u \in S.live /\ ~Doomed(S, e.u) THEN {"C05.cancelled_early"} ELSE {})
ACancelEff(S, e) ==
  [S EXCEPT !.eff = Put(@, <<e.u, e.x>>, [EffOf(S, e.u, e.x) EXCEPT !.run = 0])]
ADoneBad(S, e) == IF EffOf(S, e.u, e.x).run # e.r THEN {"C05.done_unpaired"} ELSE {}
ADoneEff(S, e) ==
  [S EXCEPT !.eff = Put(@, <<e.u, e.x>>, [EffOf(S, e.u, e.x) EXCEPT !.run = 0, !.act = IF e.cl = 1 THEN e.r ELSE 0])]

(************************ events *******************************************)
FireEff(S, e) ==
  IF e.h \notin DOMAIN S.hown THEN S
  ELSE LET h == S.hown[e.h]
           k == <<h.u, h.at>>
           sure == HandlerShown(S, k) IN
       [S EXCEPT !.fired = Put(@, e.i, [u |-> h.u, at |-> h.at, v |-> h.v, q |-> e.q, g |-> e.g, n |-> 0, sure |-> sure]),
                 !.started = IF sure THEN @ ELSE Bump(@, e.g, e.q)]

HStartBad(S, e) ==
  IF S.state = "closed" THEN {"C06.handler_after_close"}
  ELSE IF e.i \notin DOMAIN S.fired THEN {"C09.unknown_event"}
  ELSE IF e.h \notin DOMAIN S.hown THEN {"C09.unknown_handler"}
  ELSE LET f == S.fired[e.i]
           h == S.hown[e.h]
           k == <<f.u, f.at>>
       IN (IF h.u # f.u \/ h.at # f.at
           THEN (IF f.sure THEN {"C09.wrong_element"} ELSE {})    \* else: its element is gone
           ELSE (IF h.v < f.v THEN {"C09.older_than_seen"} ELSE {})
                \cup (IF k \in DOMAIN S.rank /\ h.v < S.rank[k] THEN {"C09.older_than_used"} ELSE {})
                \cup (IF S.settled /\ h.v # S.ver[h.u] THEN {"C09.not_latest"} ELSE {}))
          \cup (IF h.u \in S.gone THEN {"C09.unmounted"} ELSE {})
          \cup (IF f.n > 0 THEN {"C09.twice"} ELSE {})
          \cup (IF e.cap # h.sl THEN {"C03.snapshot"} ELSE {})
          \cup (IF k \in DOMAIN S.lastst /\ S.lastst[k] > e.i THEN {"C10.out_of_order"} ELSE {})
          \cup (IF \E j \in DOMAIN S.run : S.run[j] = k THEN {"C10.overlap"} ELSE {})
HStartEff(S, e) ==
  IF e.i \notin DOMAIN S.fired \/ e.h \notin DOMAIN S.hown THEN S
  ELSE LET f == S.fired[e.i]
           k == <<f.u, f.at>> IN
       [S EXCEPT !.fired = [@ EXCEPT ![e.i] = [@ EXCEPT !.n = @ + 1]],
                 !.lastst = Put(@, k, e.i), !.run = Put(@, e.i, k),
                 !.rank = Put(@, k, S.hown[e.h].v),
                 !.started = Bump(@, f.g, f.q), !.taken = Bump(@, f.g, f.q)]
HEndEff(S, e) == [S EXCEPT !.run = Del(@, {e.i})]

(************************ quiet: nothing is going on ***********************)
Fam(S, k) == IF S.eff[k].k = "a" THEN "C05" ELSE "C04"
Dirty(S, u) == S.slots[u] # S.rd[u]
QuietBad(S, e) ==
  LET r == Root(S)
      den == IF r # 0 /\ r \in DOMAIN S.raw THEN DenI(S, r) ELSE <<MissingNode>>
      fl == Flat(S.view)
      reach == Reachable(S)
      effs == DOMAIN S.eff
  IN  (IF fl = den THEN {}
       ELSE {"C01.view"}
            \cup (IF HasErr(den) \/ HasErr(fl) THEN {"C07.view"} ELSE {})
            \cup (IF HasDup(S) THEN {"C13.view"} ELSE {})
            \cup (IF NoHandlers(fl) = NoHandlers(den) THEN {"C09.view_handlers"} ELSE {}))
      \cup (IF \E u \in reach : Dirty(S, u) THEN {"C03.lost_update"} ELSE {})
      \cup {Fam(S, k) \o ".never_ran" :
              k \in {x \in effs : x[1] \in reach /\ S.eff[x].pend # <<>> /\ ~IsErr(S, x[1])}}
      \cup UNION {{"C06.cleanup_missing", Fam(S, k) \o ".cleanup_missing"} :
              k \in {x \in effs : x[1] \notin reach /\ S.eff[x].act # 0}}
      \cup (IF \E k \in effs : k[1] \notin reach /\ S.eff[k].run # 0 /\ S.eff[k].sh = 0
            THEN {"C06.effect_still_running", "C05.still_running"} ELSE {})
      \cup (IF \E i \in DOMAIN S.fired : S.fired[i].n = 0 /\ S.fired[i].sure /\ S.fired[i].u \in reach
            THEN {"C09.never_handled", "C10.never_handled"} ELSE {})
      \cup (IF ~Injective(TargetsOf(S.view)) THEN {"C09.target_clash"} ELSE {})
      \cup (LET ins == InputsOf(S.view) IN
            IF \E i \in DOMAIN ins : Known(S, ins[i]) /\ ins[i].ac < TopSnap(S.tsnap[Owner(S, ins[i]).u], ins[i])
            THEN {"C11.ack_missing"} ELSE {})
QuietEff(S, e) ==
  LET reach == Reachable(S)
      keepn == {n \in DOMAIN S.bound : S.bound[n] \in reach /\ S.bn[S.bound[n]] = n}
  IN
  [S EXCEPT !.gone = S.seen \ reach, !.live = reach, !.doom = {}, !.settled = TRUE,
            !.credit = [u \in DOMAIN @ |-> IF u \in reach /\ Dirty(S, u) THEN 1 ELSE 0],
            !.started = BumpAll(@, S.fired, DOMAIN S.fired),
            !.fired = EmptyF, !.lastst = EmptyF, !.run = EmptyF,
            !.node = [n \in {x \in DOMAIN @ : x = 0 \/ x \in keepn} |-> @[n]],
            !.bound = [n \in keepn |-> @[n]]]

(************************ the end of the layout ****************************)
ClosedBad(S, e) ==
  UNION {{"C06.cleanup_missing", Fam(S, k) \o ".cleanup_missing"} :
           k \in {x \in DOMAIN S.eff : S.eff[x].act # 0}}
  \cup (IF \E k \in DOMAIN S.eff : S.eff[k].run # 0 THEN {"C06.effect_still_running", "C05.still_running"} ELSE {})
  \cup (IF e.n # 0 THEN {"C06.leftover_tasks"} ELSE {})
  \cup (IF e.now # 0 THEN {"C06.closed_before_the_end"} ELSE {})

CrashBad(S, e) ==
  CASE e.w = "render" -> {"C01.render_raised", "C07.render_raised"}
    [] e.w = "deliver" -> {"C09.deliver_raised"}
    [] e.w = "stuck" -> {"C10.hang", "C09.hang"}
    [] e.w = "close" -> {"C06.close_raised"}
    [] e.w = "livelock" -> {"C03.livelock", "C01.livelock"}
    [] OTHER -> {"C01.hang", "C03.hang", "C06.hang"}

(************************ one step *****************************************)
Bad(S, e) ==
  IF S.state = "dead" THEN {}
  ELSE CASE e.e = "begin" -> BeginBad(S, e)
    [] e.e = "end" -> EndBad(S, e)
    [] e.e = "upd" -> UpdBad(S, e)
    [] e.e = "effrun" -> EffStartBad(S, e, "C04")
    [] e.e = "effclean" -> CleanBad(S, e, "C04")
    [] e.e = "arun" -> EffStartBad(S, e, "C05")
    [] e.e = "aclean" -> CleanBad(S, e, "C05")
    [] e.e = "acancel" -> ACancelBad(S, e)
    [] e.e = "adone" -> ADoneBad(S, e)
    [] e.e = "hstart" -> HStartBad(S, e)
    [] e.e = "quiet" -> QuietBad(S, e)
    [] e.e = "closed" -> ClosedBad(S, e)
    [] e.e = "crash" -> CrashBad(S, e)
    [] OTHER -> {}

Eff(S, e) ==
  IF S.state = "dead" THEN S
  ELSE CASE e.e = "begin" -> BeginEff(S, e)
    [] e.e = "end" -> EndEff(S, e)
    [] e.e = "set" -> SetEff(S, e)
    [] e.e = "upd" -> UpdEff(S, e)
    [] e.e = "effrun" -> EffRunEff(S, e)
    [] e.e = "effclean" -> CleanEff(S, e)
    [] e.e = "arun" -> ARunEff(S, e)
    [] e.e = "aclean" -> CleanEff(S, e)
    [] e.e = "acancel" -> ACancelEff(S, e)
    [] e.e = "adone" -> ADoneEff(S, e)
    [] e.e = "fire" -> FireEff(S, e)
    [] e.e = "hstart" -> HStartEff(S, e)
    [] e.e = "hend" -> HEndEff(S, e)
    [] e.e = "quiet" -> QuietEff(S, e)
    [] e.e = "closing" -> [S EXCEPT !.state = "closing"]
    [] e.e = "closed" -> [S EXCEPT !.state = "closed"]
    [] e.e = "crash" -> [S EXCEPT !.state = "dead"]
    [] OTHER -> S
=============================================================================
