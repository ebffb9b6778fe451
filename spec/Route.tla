------------------------------- MODULE Route --------------------------------
(* Who answers a request: the routing of the ASGI applications.

   A path is a sequence of tokens, "/" or a word; what is written in the URL is their concatenation.  A
   route pattern is a set of alternatives, each a sequence of tokens where "SEG" stands for any one word
   and "ANY" for anything at all (including nothing). *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Rest(p, s) == SubSeq(s, Len(p) + 1, Len(s))

(* words which could be part of a dotted path *)
CONSTANT DottedWords

RECURSIVE Match(_, _)
Match(pat, path) ==
  IF pat = <<>> THEN path = <<>>
  ELSE IF pat[1] = "ANY" THEN \E i \in 0..Len(path) : Match(Tail(pat), SubSeq(path, i + 1, Len(path)))
  ELSE /\ path # <<>>
       /\ IF pat[1] = "SEG" THEN path[1] # "/" ELSE pat[1] = path[1]
       /\ Match(Tail(pat), Tail(path))

Matches(route, path) == \E pat \in route : Match(pat, path)

(* the name of the file a path below a served directory refers to; files are in the directory only *)
FileAt(st, dir, path) == LET f == [i \in 1..Len(path) |-> path[i]] IN IF \E x \in st.files : x[1] = dir /\ x[2] = f
                         THEN (CHOOSE x \in st.files : x[1] = dir /\ x[2] = f)[3] ELSE 0

FirstRoute(st, type, path) ==
  LET hits == {i \in 1..Len(st.routes) : st.routes[i].type = type /\ Matches(st.routes[i].pat, path)}
  IN IF hits = {} THEN 0 ELSE CHOOSE i \in hits : \A j \in hits : i <= j

(* what answers a request of this type to this path; numbers say which one *)
Answer(st, type, path) ==
  LET pre == st.prefix
      stat == pre \o <<"static", "/">>
      mods == pre \o <<"modules", "/">>
      rest == Rest(pre, path)
      named == IsPrefix(pre, path) /\ Len(rest) = 2 /\ rest[2] = "/" /\ rest[1] \in DottedWords
      file(dir, at) == LET v == FileAt(st, dir, Rest(at, path)) IN IF v = 0 THEN <<"missing", 0>> ELSE <<dir, v>>
      r == FirstRoute(st, type, path)
  IN IF type = "websocket" /\ st.mode = "middleware" /\ named
       THEN IF rest[1] \in st.roots THEN <<"root", rest[1]>> ELSE <<"nothing", 0>>
     ELSE IF type = "websocket" /\ st.mode = "standalone" /\ path = pre THEN <<"root", "own">>
     ELSE IF type = "http" /\ IsPrefix(stat, path) THEN file("static", stat)
     ELSE IF type = "http" /\ IsPrefix(mods, path) THEN file("modules", mods)
     ELSE IF type = "lifespan" /\ st.mode # "middleware" THEN IF st.lifespan THEN <<"lifespan", 0>> ELSE <<"returns", 0>>
     ELSE IF st.mode # "middleware" /\ r # 0 THEN <<"route", r>>
     ELSE IF st.mode = "middleware" THEN <<"user", 0>>
     ELSE IF type = "http" THEN <<"index", 0>>
     ELSE <<"refused", 0>>

(* st.dead: a failed construction *)
Do(st, op) ==
  CASE op.op = "route" -> [st EXCEPT !.routes = Append(@, [type |-> op.type, pat |-> op.pat])]
    [] op.op = "lifespan" -> [st EXCEPT !.lifespan = TRUE]
    [] op.op = "write" -> [st EXCEPT !.files = {x \in @ : x[2] # op.file \/ x[1] # "modules"} \cup {<<"modules", op.file, op.v>>}]
    [] op.op = "remove" -> [st EXCEPT !.files = {x \in @ : x[2] # op.file \/ x[1] # "modules"}]
    [] OTHER -> st
Seen(st, op) == CASE op.op = "request" -> Answer(st, op.type, op.path)
                  [] op.op = "lifespan" -> IF st.lifespan THEN <<"refused", 0>> ELSE <<"ok", 0>>
                  [] OTHER -> <<"ok", 0>>
=============================================================================
