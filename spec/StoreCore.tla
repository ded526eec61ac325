------------------------------ MODULE StoreCore ------------------------------
(***************************************************************************)
(* The observable state and transitions of hedzr/store.                    *)
(*                                                                         *)
(* The state of a test universe is one record:                             *)
(*   trees  a sequence of data trees.  A tree is owned by one store (or    *)
(*          trie) and shared by all its views; a clone gets a new tree.    *)
(*          kv maps each stored key to its entry [v,d,c,t,m,i]: value,     *)
(*          description, comment, tag, modified mark, incarnation.         *)
(*   views  a sequence of handles on trees: prefix, delimiter, recursive   *)
(*          mode, slice flattening, watching.                              *)
(*   inc    incarnation counter (an incarnation is one life of a key);     *)
(*   now, jobs, njob    the clock (microseconds) and pending TTL jobs;     *)
(*   nh     node handles held by the user: [t,k,i];                        *)
(*   ldrs   successful or failed loads; srcs: the sources they used;       *)
(*   files  what is in files (see Files).                                  *)
(*                                                                         *)
(* Call(st, c) is the transition function: the call c (a record with an    *)
(* op) takes state st to Call(st,c).s and answers Call(st,c).r.  Values    *)
(* are tagged strings ("i:3", "s:x", "nil", "ls:a,b", ...).                *)
(***************************************************************************)
EXTENDS Text

-----------------------------------------------------------------------------
(* State *)

View0 == [tree |-> 1, prefix |-> "", delim |-> ".", mode |-> "n",
          flat |-> FALSE, watch |-> FALSE]

Tree0(kind, base) == [kv |-> EmptyFn, base |-> base, kind |-> kind, hand |-> kind = "store", closed |-> FALSE]

InitState == [trees |-> <<>>, views |-> <<>>, inc |-> 0, now |-> 0, jobs |-> {}, njob |-> 0,
              nh |-> <<>>, ldrs |-> <<>>, srcs |-> <<>>,
              files |-> [f \in 1..2 |-> [st |-> "none", cd |-> "", m |-> {}]]]

R0 == [ok |-> TRUE]            \* the answer of a call which has nothing to say

-----------------------------------------------------------------------------
(* Keys, sections *)

(* spaces in a key are kept as dashes, whoever asks for them *)
Norm(k) == IF HasChar(k, " ") THEN Subst(k, " ", "-") ELSE k
Full(V, p) == Norm(Join2(V.prefix, p, V.delim))

Below(K, p, d) == LET q == IF EndsWith(p, d) THEN p ELSE p \o d
                  IN {k \in K : Len(k) > Len(q) /\ StartsWith(k, q)}
Under(K, p, d) == IF p \in K THEN Below(K, p, d) \cup {p} ELSE Below(K, p, d)
Found(K, p, d) == p # "" /\ Under(K, p, d) # {}

KV(st, h) == st.trees[st.views[h].tree].kv

(* recursive-up: the same last segment in the enclosing sections, nearest first *)
RECURSIVE Climb(_, _, _)
Climb(K, segs, d) ==
  LET w == JoinAll(segs, d) IN
  IF Found(K, w, d) THEN w
  ELSE IF Len(segs) > 2 THEN Climb(K, SubSeq(segs, 1, Len(segs) - 2) \o <<LastOf(segs)>>, d)
  ELSE ""

(* the path a lookup ends up at, "" if it finds nothing *)
Resolve(V, K, p) ==
  LET f == Full(V, p) IN
  IF Found(K, f, V.delim) THEN f
  ELSE IF V.mode = "u" /\ f # "" THEN Climb(K, Split(f, V.delim), V.delim)
  ELSE ""

-----------------------------------------------------------------------------
(* Entries *)

IsStore(st, t) == st.trees[t].kind = "store"
NewE(st) == [v |-> "nil", d |-> "", c |-> "", t |-> "nil", m |-> FALSE, i |-> st.inc + 1]
Ent(st, t, k) == IF k \in DOMAIN st.trees[t].kv THEN st.trees[t].kv[k] ELSE NewE(st)
PutE(st, t, k, e) == [st EXCEPT !.trees[t].kv = (k :> e) @@ @, !.inc = @ + 1]
DelKeys(st, t, D) == [st EXCEPT !.trees[t].kv = [k \in DOMAIN @ \ D |-> @[k]]]

(* slices are expanded to numbered keys when flattening is on *)
Kind(v) == Split(v, ":")[1]
Items(v) == Split(DropN(v, 3), ",")
Elems(v) ==
  LET x == Items(v)  num(i) == ToString(i - 1) IN
  CASE Kind(v) = "la" -> [i \in DOMAIN x |-> <<num(i), "s:" \o x[i]>>]
    [] Kind(v) \in {"lm", "lx", "ly"} -> [i \in DOMAIN x |-> <<num(i) \o ".n", "s:" \o x[i]>>]
    [] Kind(v) = "lw" -> << <<"0.0.n", "s:" \o x[1]>>, <<"0.1.n", "s:" \o x[2]>>, <<"1", "ls:" \o x[1] \o "," \o x[2]>>, <<"2.0.n", "s:" \o x[1]>>, <<"2.1.n", "s:" \o x[2]>> >>
    [] Kind(v) = "ln" -> << <<"0.k", "s:" \o x[1]>>, <<"1", "s:" \o x[2]>>, <<"2.0", "s:" \o x[1]>>, <<"2.1", "s:" \o x[2]>> >>
    [] OTHER -> <<>>
Flattable(v) == Kind(v) \in {"la", "lm", "lx", "ly", "lw", "ln"}
(* lists with maps that are not keyed by strings *)
AnyKeyed(v) == Kind(v) \in {"lx", "ly", "lw"}
Dots(s, d) == IF d = "." THEN s ELSE JoinAll(Split(s, "."), d)

(* what an in-place change of a value read from the store does to it *)
Commas(x) == IF Len(x) = 1 THEN "" ELSE "," \o JoinAll(Tail(x), ",")
Mutated(v) ==
  CASE Kind(v) \in {"ls", "la", "lm", "lx", "ly", "ln", "l2"} -> Kind(v) \o ":Z" \o Commas(Items(v))
    [] v = "mi:k=1" -> "mi:k=9" [] v = "ma:k=x" -> "ma:k=Z"
    [] v = "mn:x" -> "mn:Z" [] v = "ms:a,b" -> "ms:Z,b"
    [] v = "li:1,2" -> "li:9,2" [] v = "by:ab" -> "by:Zb" [] v = "mx:k=x" -> "mx:k=Z" [] v = "m2:x" -> "m2:Z" [] OTHER -> v
Mutable(v) == Mutated(v) # v

-----------------------------------------------------------------------------
(* Change events (a bag): <<kind, path, new, old, mergingOrLoading>>, the path is relative to the
   prefix of the store the handlers were registered with. *)

EvPath(st, t, k) == LET B == st.views[st.trees[t].base]
                    IN IF B.prefix = "" THEN k ELSE IF k = B.prefix THEN "" ELSE TrimPre(k, B.prefix \o B.delim)
Ev(st, t, kind, k, new, old, flag) ==
  IF st.trees[t].hand THEN << <<kind, EvPath(st, t, k), new, old, flag>> >> ELSE <<>>

(* one key set by the user (user=TRUE) or from a source; x = meta-information
   that comes along: [d,c,t] *)
NoMeta == [d |-> "", c |-> "", t |-> "nil"]
SetOne(a, t, k, v, user, flag, x) ==
  LET st == a.s
      isnew == k \notin DOMAIN st.trees[t].kv
      e  == Ent(st, t, k)
      e1 == [e EXCEPT !.v = v, !.m = @ \/ user,
                      !.d = IF x.d # "" \/ x.c # "" THEN x.d ELSE @,
                      !.c = IF x.d # "" \/ x.c # "" THEN x.c ELSE @,
                      !.t = IF x.t # "nil" THEN x.t ELSE @]
  IN [s |-> PutE(st, t, k, e1),
      old |-> e.v,
      ev |-> a.ev \o (IF isnew THEN Ev(st, t, "new", k, v, "nil", flag)
                                 ELSE Ev(st, t, "chg", k, v, e.v, flag))]
Acc(st) == [s |-> st, old |-> "nil", ev |-> <<>>]

(* leaves: a sequence of [s: segments, v, d, c, t] *)
RECURSIVE SetLeaves(_, _, _, _, _, _, _)
SetLeaves(a, t, pos, d, leaves, flat, user) ==
  IF leaves = <<>> THEN a ELSE
  LET l == Head(leaves)
      k == Norm(Join2(pos, JoinAll(l.s, d), d))
      x == [d |-> l.d, c |-> l.c, t |-> l.t]
      RECURSIVE Each(_, _)
      Each(b, es) == IF es = <<>> THEN b
                     ELSE Each(SetOne(b, t, k \o d \o Dots(Head(es)[1], d), Head(es)[2], user, TRUE, x), Tail(es))
  IN SetLeaves(IF flat /\ Flattable(l.v) /\ (AnyKeyed(l.v) => IsStore(a.s, t)) THEN Each(a, Elems(l.v))
               ELSE SetOne(a, t, k, l.v, user, TRUE, x),
               t, pos, d, Tail(leaves), flat, user)

-----------------------------------------------------------------------------
(* Creating stores, views and clones *)

DoNew(st, c) ==
  LET t == Len(st.trees) + 1  h == Len(st.views) + 1 IN
  [s |-> [st EXCEPT !.trees = Append(@, Tree0(c.kind, h)),
                    !.views = Append(@, [View0 EXCEPT !.tree = t, !.delim = c.dl, !.flat = c.flat,
                                         !.watch = c.watch, !.prefix = c.p])],
   r |-> R0]

AddView(st, V) == [s |-> [st EXCEPT !.views = Append(@, V)],
                   r |-> [p |-> V.prefix, dl |-> V.delim, md |-> V.mode]]

DoWithPrefix(st, c)  == LET V == st.views[c.h] IN
  AddView(st, [V EXCEPT !.prefix = Join2(@, JoinAll(c.ps, V.delim), V.delim)])
DoWithPrefixR(st, c) == LET V == st.views[c.h] IN
  AddView(st, [V EXCEPT !.prefix = JoinAll(c.ps, V.delim)])
DoMode(st, c) == AddView(st, [st.views[c.h] EXCEPT !.mode = c.md])
DoSetPrefix(st, c) ==
  LET V == [st.views[c.h] EXCEPT !.prefix = JoinAll(c.ps, st.views[c.h].delim)]
  IN [s |-> [st EXCEPT !.views[c.h] = V], r |-> [p |-> V.prefix]]
DoSetDelim(st, c) == [s |-> [st EXCEPT !.views[c.h].delim = c.dl], r |-> [dl |-> c.dl]]
DoClone(st, c) ==
  LET V == st.views[c.h]  t == Len(st.trees) + 1  h == Len(st.views) + 1
      T == st.trees[V.tree]
  IN [s |-> [st EXCEPT
        !.trees = Append(@, [T EXCEPT !.base = h, !.hand = FALSE, !.closed = FALSE,
                                      !.kv = [k \in DOMAIN T.kv |-> [T.kv[k] EXCEPT !.i = st.inc + 1]]]),
        !.inc = @ + 1,
        !.views = Append(@, [V EXCEPT !.tree = t])],
      r |-> [p |-> V.prefix, dl |-> V.delim, md |-> V.mode]]
DoViewInfo(st, c) == LET V == st.views[c.h] IN
  [s |-> st, r |-> [p |-> V.prefix, dl |-> V.delim, md |-> V.mode]]

-----------------------------------------------------------------------------
(* Writing *)

Keep(st, on, t, k) == IF on THEN [st EXCEPT !.nh = Append(@, [t |-> t, k |-> k, i |-> st.trees[t].kv[k].i])] ELSE st

DoSet(st, c) ==
  LET V == st.views[c.h]  t == V.tree  k == Full(V, c.p)
      a == SetOne(Acc(st), t, k, c.v, IsStore(st, t) /\ ~c.ld, c.ld, NoMeta)
  IN [s |-> Keep(a.s, c.keep, t, k), r |-> [old |-> a.old, ev |-> a.ev]]

(* writes that go straight to the tree: no mark, no event *)
Raw(st, c, e, r) == LET V == st.views[c.h] k == Full(V, c.p) IN
  [s |-> Keep(PutE(st, V.tree, k, e), c.keep, V.tree, k), r |-> r]
EntC(st, c) == LET V == st.views[c.h] IN Ent(st, V.tree, Full(V, c.p))

DoInsert(st, c)   == LET e == EntC(st, c) IN Raw(st, c, [e EXCEPT !.v = c.v], [old |-> e.v, ev |-> <<>>])
DoSetEmpty(st, c) == LET e == EntC(st, c) IN Raw(st, c, [e EXCEPT !.v = "nil", !.t = "nil"], [old |-> e.v, ev |-> <<>>])
(* nd: how many of description and comments are given; further comments are further lines *)
DoSetNode(st, c)  == LET e == EntC(st, c) IN
  Raw(st, c, [e EXCEPT !.v = c.v, !.t = c.t, !.d = IF c.nd >= 1 THEN c.d ELSE @, !.c = IF c.nd = 2 THEN c.c ELSE IF c.nd = 3 THEN c.c \o "\n" \o "3rd" ELSE @],
      [old |-> e.v, ev |-> <<>>])

(* what a callback does to the node it is given *)
Act(e, a) == CASE a = "data"    -> [e EXCEPT !.v = "s:cb"]
               [] a = "comment" -> [e EXCEPT !.d = "dcb", !.c = "ccb"]
               [] a = "tag"     -> [e EXCEPT !.t = "s:tcb"]
               [] a = "empty"   -> [e EXCEPT !.v = "nil", !.t = "nil"]
               [] a = "mod"     -> [e EXCEPT !.m = TRUE]
               [] OTHER -> e
DoSetEx(st, c)  == LET e == EntC(st, c)  k == Full(st.views[c.h], c.p) IN
  Raw(st, c, Act([e EXCEPT !.v = c.v], c.act),
      [old |-> e.v, ev |-> <<>>, cb |-> << <<k, e.v, k, c.v>> >>])
DoUpdate(st, c) == LET e == EntC(st, c)  k == Full(st.views[c.h], c.p) IN
  Raw(st, c, Act(e, c.act), [ev |-> <<>>, cb |-> << <<k, e.v, e.v, e.d, e.t>> >>])

DoSetComment(st, c) ==
  LET V == st.views[c.h]  k == Full(V, c.p)  kv == st.trees[V.tree].kv IN
  IF k \in DOMAIN kv THEN [s |-> PutE(st, V.tree, k, [kv[k] EXCEPT !.d = c.d, !.c = c.c]), r |-> [ok |-> TRUE]]
  ELSE [s |-> st, r |-> [ok |-> FALSE]]
DoSetTag(st, c) ==
  LET V == st.views[c.h]  k == Full(V, c.p)  kv == st.trees[V.tree].kv IN
  IF k \in DOMAIN kv THEN [s |-> PutE(st, V.tree, k, [kv[k] EXCEPT !.t = c.t]), r |-> [ok |-> TRUE]]
  ELSE [s |-> st, r |-> [ok |-> FALSE]]

RemovePath(st, t, k, d, flag) ==
  LET kv == st.trees[t].kv IN
  IF Found(DOMAIN kv, k, d)
  THEN [s |-> DelKeys(st, t, Under(DOMAIN kv, k, d)),
        r |-> [ok |-> TRUE, ev |-> Ev(st, t, "del", k, IF k \in DOMAIN kv THEN kv[k].v ELSE "nil", "", flag)]]
  ELSE [s |-> st, r |-> [ok |-> FALSE, ev |-> <<>>]]
DoRemove(st, c) == LET V == st.views[c.h] IN RemovePath(st, V.tree, Full(V, c.p), V.delim, c.ld)

DoMerge(st, c) ==
  LET V == st.views[c.h]
      store == IsStore(st, V.tree)
      a == SetLeaves(Acc(st), V.tree, Full(V, c.p), V.delim, c.lv, IF store THEN V.flat ELSE TRUE, store /\ ~c.ld)
  IN [s |-> a.s, r |-> [ev |-> a.ev]]

DoMutate(st, c) ==  \* change in place a slice or map read from the store
  LET V == st.views[c.h]  k == Full(V, c.p)  kv == st.trees[V.tree].kv IN
  IF k \in DOMAIN kv THEN [s |-> PutE(st, V.tree, k, [kv[k] EXCEPT !.v = Mutated(@)]), r |-> R0]
  ELSE [s |-> st, r |-> R0]

-----------------------------------------------------------------------------
(* Reading *)

Val(kv, k) == IF k \in DOMAIN kv THEN kv[k].v ELSE "nil"

DoGet(st, c) ==
  LET V == st.views[c.h]  kv == KV(st, c.h)  k == Resolve(V, DOMAIN kv, c.p) IN
  [s |-> st, r |-> [f |-> k # "", v |-> Val(kv, k)]]
DoHas(st, c) ==
  LET V == st.views[c.h]  kv == KV(st, c.h) IN
  [s |-> st, r |-> [f |-> Full(V, c.p) = "" \/ Resolve(V, DOMAIN kv, c.p) # ""]]
DoQuery(st, c) ==
  LET V == st.views[c.h]  kv == KV(st, c.h)  k == Resolve(V, DOMAIN kv, c.p) IN
  [s |-> st, r |-> [f |-> k # "", v |-> Val(kv, k), b |-> k # "" /\ k \notin DOMAIN kv, e |-> k = ""]]
DoLocate(st, c) ==
  LET V == st.views[c.h]  kv == KV(st, c.h)  k == Resolve(V, DOMAIN kv, c.p)
      isk == k \in DOMAIN kv IN
  [s |-> st, r |-> [f |-> k # "", b |-> k # "" /\ ~isk,
                    key |-> IF isk THEN k ELSE "", v |-> Val(kv, k)]]
(* reading with a callback: <<key, value, is-section>> *)
DoGetEx(st, c) ==
  LET V == st.views[c.h]  kv == KV(st, c.h)  k == Resolve(V, DOMAIN kv, c.p)
      isk == k \in DOMAIN kv
      s1 == IF isk /\ c.act # "" THEN PutE(st, V.tree, k, Act(kv[k], c.act)) ELSE st
  IN [s |-> IF isk THEN Keep(s1, c.keep, V.tree, k) ELSE s1,
      r |-> [cb |-> IF k = "" THEN <<>> ELSE << <<IF isk THEN k ELSE "", Val(kv, k), ~isk>> >>]]
DoHasPart(st, c) ==
  LET p == Full(st.views[c.h], c.p)  K == DOMAIN KV(st, c.h) IN
  [s |-> st, r |-> [f |-> \E k \in K : StartsWith(k, p)]]
DoMetaOf(st, c) ==
  LET V == st.views[c.h]  kv == KV(st, c.h)  k == Resolve(V, DOMAIN kv, c.p) IN
  [s |-> st, r |-> IF k \in DOMAIN kv THEN [f |-> TRUE, d |-> kv[k].d, c |-> kv[k].c, t |-> kv[k].t]
                   ELSE [f |-> k # "", d |-> "", c |-> "", t |-> "nil"]]

DoModOf(st, c) ==
  LET V == st.views[c.h]  kv == KV(st, c.h)  k == Resolve(V, DOMAIN kv, c.p) IN
  [s |-> st, r |-> [f |-> k \in DOMAIN kv, m |-> k \in DOMAIN kv /\ kv[k].m]]

(* subtree extraction *)
IsRoot(p) == p \in {"", ".", "(root)"}
(* the keys at or beneath a path with their relative names *)
Named(V, K, p) ==
  LET q == IF IsRoot(p) THEN "" ELSE p
      b == IF q = "" /\ V.prefix = "" THEN "" ELSE Resolve(V, K, q)
      pre == IF EndsWith(b, V.delim) THEN b ELSE b \o V.delim
  IN IF b = "" THEN (IF q = "" /\ V.prefix = "" THEN {<<k, k>> : k \in K} ELSE {})
     ELSE {<<k, IF k = b THEN LastOf(Split(k, V.delim)) ELSE DropN(k, Len(pre))>> : k \in Under(K, b, V.delim)}
Exists(V, K, p) == IsRoot(p) \/ Resolve(V, K, p) # ""

DoGetR(st, c) ==
  LET V == st.views[c.h]  kv == KV(st, c.h)  K == DOMAIN kv  found == Exists(V, K, c.p) IN
  [s |-> st, r |-> [nil |-> ~found,
                    m |-> IF found THEN {<<x[1], kv[x[1]].v>> : x \in Named(V, K, c.p)} ELSE {}]]
Accepts(e, f) == CASE f = "mod" -> e.m [] f = "int" -> StartsWith(e.v, "i:") [] f = "none" -> FALSE [] OTHER -> TRUE
PrefixFree(S) == \A x, y \in S : ~ProperExt(x[1], y[1])
DistinctPaths(S) == Cardinality({x[1] : x \in S}) = Cardinality(S)
DoGetM(st, c) ==
  LET V == st.views[c.h]  kv == KV(st, c.h)  K == DOMAIN kv
      found == Exists(V, K, c.p)
      whole == IsRoot(c.p)
      nm(x) == IF c.keep THEN x[1] ELSE x[2]
      segs(x) == IF whole /\ ~c.nf THEN <<nm(x)>> ELSE Split(nm(x), V.delim)
      A == {y \in Named(V, K, c.p) : Accepts(kv[y[1]], c.flt)}
      m == {<<segs(x), kv[x[1]].v>> : x \in A}
  IN [s |-> st, r |-> IF PrefixFree(m) /\ DistinctPaths(m) /\ Cardinality(m) = Cardinality(A) THEN [nil |-> ~found, m |-> m]
                      ELSE [skip |-> TRUE]]    \* a key that is both a value and a section cannot be nested
DoWalk(st, c) ==
  LET V == st.views[c.h]  kv == KV(st, c.h)  K == DOMAIN kv IN
  [s |-> st, r |-> [m |-> {<<x[1], kv[x[1]].v>> : x \in Named(V, K, c.p)}]]

(* everything in the tree of a handle: used as probes *)
DoContent(st, c) ==
  LET kv == KV(st, c.h) IN
  [s |-> st, r |-> CASE c.what = "kv"   -> [m |-> {<<k, kv[k].v>> : k \in DOMAIN kv}]
                     [] c.what = "meta" -> [m |-> {<<k, kv[k].d, kv[k].c, kv[k].t>> : k \in DOMAIN kv}]
                     [] c.what = "mods" -> [m |-> {<<k, kv[k].m>> : k \in DOMAIN kv}]
                     [] OTHER -> [m |-> {<<k, kv[k].v, kv[k].d, kv[k].c, kv[k].t, kv[k].m>> : k \in DOMAIN kv}]]

-----------------------------------------------------------------------------
(* Node handles *)

Alive(st, n) == LET x == st.nh[n] kv == st.trees[x.t].kv IN x.k \in DOMAIN kv /\ kv[x.k].i = x.i
DoNode(st, c) ==
  LET x == st.nh[c.n]
      e == st.trees[x.t].kv[x.k]
      w(e1(_)) == [s |-> IF Alive(st, c.n) THEN PutE(st, x.t, x.k, e1(e)) ELSE st, r |-> R0]
  IN CASE c.op = "nread" ->
            [s |-> st, r |-> IF Alive(st, c.n) THEN [key |-> x.k, v |-> e.v, d |-> e.d, c |-> e.c, t |-> e.t, m |-> e.m]
                             ELSE [skip |-> TRUE]]
       [] c.op = "ndata"    -> w(LAMBDA y : [y EXCEPT !.v = c.v])
       [] c.op = "ncomment" -> w(LAMBDA y : [y EXCEPT !.d = c.d, !.c = c.c])
       [] c.op = "ntag"     -> w(LAMBDA y : [y EXCEPT !.t = c.t])
       [] c.op = "nempty"   -> w(LAMBDA y : [y EXCEPT !.v = "nil", !.t = "nil"])
       [] c.op = "nmod"     -> w(LAMBDA y : [y EXCEPT !.m = c.b])
       [] c.op = "nreset"   -> w(LAMBDA y : [y EXCEPT !.m = FALSE])
       [] c.op = "ntoggle"  -> w(LAMBDA y : [y EXCEPT !.m = ~@])

(* take a handle on an existing key by walking or locating *)
DoHandle(st, c) ==
  LET V == st.views[c.h]  k == Full(V, c.p)  kv == KV(st, c.h) IN
  IF k \in DOMAIN kv THEN [s |-> Keep(st, TRUE, V.tree, k), r |-> [f |-> TRUE]]
  ELSE [s |-> st, r |-> [f |-> FALSE]]

-----------------------------------------------------------------------------
(* Time to live *)

DoTTL(st, c) ==
  LET V == st.views[c.h]  K == DOMAIN KV(st, c.h)  k == Full(V, c.p) IN
  IF ~Found(K, k, V.delim) THEN [s |-> st, r |-> [ok |-> FALSE]]
  ELSE LET id == st.njob + 1
           j == [id |-> id, due |-> st.now + c.ms * 1000 + id, t |-> V.tree, k |-> k,
                 sec |-> k \notin K, i |-> IF k \in K THEN KV(st, c.h)[k].i ELSE 0, cb |-> ~c.w]
       IN [s |-> [st EXCEPT !.jobs = @ \cup {j}, !.njob = id], r |-> [ok |-> TRUE]]
DoTTLFast(st, c) ==
  LET x == st.nh[c.n]  id == st.njob + 1
      j == [id |-> id, due |-> st.now + c.ms * 1000 + id, t |-> x.t, k |-> x.k, sec |-> FALSE, i |-> x.i, cb |-> ~c.w]
  IN [s |-> [st EXCEPT !.jobs = @ \cup {j}, !.njob = id], r |-> [ok |-> TRUE]]
Fire(st, j) ==
  LET kv == st.trees[j.t].kv
      alive == ~j.sec /\ j.k \in DOMAIN kv /\ kv[j.k].i = j.i
      s1 == [st EXCEPT !.jobs = @ \ {j}]
      d == st.views[st.trees[j.t].base].delim
  IN [s |-> IF j.sec THEN DelKeys(s1, j.t, Under(DOMAIN kv, j.k, d))
            ELSE IF alive THEN PutE(s1, j.t, j.k, [kv[j.k] EXCEPT !.v = "nil", !.t = "nil"])
            ELSE s1,
      cb |-> IF j.cb THEN << <<j.id, j.k, IF alive THEN kv[j.k].v ELSE "-">> >> ELSE <<>>]
RECURSIVE FireAll(_, _, _)
FireAll(st, now, cbs) ==
  LET D == {j \in st.jobs : j.due <= now} IN
  IF D = {} THEN [s |-> [st EXCEPT !.now = now], cb |-> cbs]
  ELSE LET j == CHOOSE x \in D : \A y \in D : x.due <= y.due
           f == Fire(st, j)
       IN FireAll(f.s, now, cbs \o f.cb)
DoAdvance(st, c) == LET f == FireAll(st, st.now + c.ms * 1000, <<>>) IN [s |-> f.s, r |-> [cb |-> f.cb]]

(* closing the owner of a tree stops its TTL jobs and closes its watched sources *)
DoClose(st, c) ==
  LET t == st.views[c.h].tree IN
  IF st.trees[t].base # c.h THEN [s |-> st, r |-> R0]
  ELSE [s |-> [st EXCEPT !.jobs = {j \in @ : j.t # t}, !.trees[t].closed = TRUE,
                         !.srcs = [i \in DOMAIN @ |-> IF @[i].watched /\ @[i].t = t THEN [@[i] EXCEPT !.closed = @ + 1] ELSE @[i]]],
        r |-> R0]

-----------------------------------------------------------------------------
(* Loading, saving and watching *)

LView(st, l) == IF l.ref # 0 THEN st.views[l.ref] ELSE l.view

(* sp: store prefix of the load ("" = none given); fl: "" or "on" / "off";
   src: kind of source; w: it can be watched; nw: the load opts out of watching;
   fail: "" or where it fails; lv: leaves *)
DoLoad(st, c) ==
  LET V  == st.views[c.h]
      V1 == IF c.sp = "" THEN V ELSE [V EXCEPT !.prefix = c.sp]
      V2 == IF c.fl = "" THEN V1 ELSE [V1 EXCEPT !.flat = (c.fl = "on")]
      failed == c.fail \in {"read", "bytes", "codec", "read+", "bytes+", "codec+", "noprov", "unsupported"}   \* +: fails, and returns something
      a  == SetLeaves(Acc(st), V.tree, V2.prefix, V2.delim, c.lv, V2.flat, FALSE)
      s1 == IF failed THEN st ELSE a.s
      w  == ~failed /\ c.w /\ V2.watch /\ ~c.nw
  IN [s |-> [s1 EXCEPT
        !.ldrs = Append(@, [ok |-> ~failed, ref |-> IF c.sp = "" /\ c.fl = "" THEN c.h ELSE 0, view |-> V2, cd |-> c.cd, kind |-> c.src, by |-> c.h]),
        !.srcs = Append(@, [watched |-> w, closed |-> 0, t |-> V.tree, ld |-> Len(st.ldrs) + 1])],
      r |-> [err |-> failed /\ c.fail # "noprov", wr |-> ~failed, ev |-> IF failed THEN <<>> ELSE a.ev]]

(* loading blocks do not nest: what starts inside one does nothing, and the
   block stays a loading block until its end *)
DoNest(st, c) ==
  LET V == st.views[c.h]
      a1 == SetOne(Acc(st), V.tree, Full(V, c.p), c.v, FALSE, TRUE, NoMeta)
      a2 == SetOne(a1, V.tree, Full(V, c.p2), c.v, FALSE, TRUE, NoMeta)
  IN [s |-> a2.s, r |-> [ran |-> FALSE, ev |-> a2.ev]]

(* Save: the nested document handed to the provider; as: the whole content *)
DoSave(st, c) ==
  LET l == st.ldrs[c.l]
      V == LView(st, l)
      kv == st.trees[V.tree].kv
      ks == {x \in Named(V, DOMAIN kv, "") : c.as \/ kv[x[1]].m}
      m == {<<Split(x[2], V.delim), kv[x[1]].v>> : x \in ks}
  IN [s |-> st, r |->
       IF ~(PrefixFree(m) /\ DistinctPaths(m)) THEN [skip |-> TRUE]
       ELSE IF m = {} THEN [err |-> FALSE, n |-> 0, m |-> {}]
       ELSE CASE c.fail = "enc"   -> [err |-> TRUE, n |-> 0, m |-> {}]
              [] ~c.as /\ l.kind = "map" -> [err |-> TRUE, n |-> 0, m |-> {}]  \* it cannot be written to
              [] c.as /\ c.via = "map" -> [err |-> TRUE, n |-> 0, m |-> {}]
              [] c.fail = "write" -> [err |-> TRUE, n |-> 0, m |-> {}]
              [] OTHER -> [err |-> FALSE, n |-> 1, m |-> m]]
(* ... and loaded again through the same codec into an empty store under the same prefix *)
DoRoundTrip(st, c) ==
  LET l == st.ldrs[c.l]
      V == LView(st, l)
      kv == st.trees[V.tree].kv
      ks == {x \in Named(V, DOMAIN kv, "") : c.as \/ kv[x[1]].m}
      m == {<<Split(x[2], V.delim), kv[x[1]].v>> : x \in ks}
  IN [s |-> st, r |->
       IF ~(PrefixFree(m) /\ DistinctPaths(m)) \/ V.prefix \in DOMAIN kv THEN [skip |-> TRUE]
       ELSE [err |-> FALSE, m |-> {<<x[1], kv[x[1]].v>> : x \in ks}]]

RECURSIVE Apply(_, _, _, _, _)
Apply(st, V, op, es, ev) ==
  IF es = <<>> THEN [s |-> st, ev |-> ev] ELSE
  LET k == Full(V, Head(es)[1]) IN
  IF op = "remove"
  THEN LET x == RemovePath(st, V.tree, k, V.delim, TRUE) IN Apply(x.s, V, op, Tail(es), ev \o x.r.ev)
  ELSE LET a == SetOne(Acc(st), V.tree, k, Head(es)[2], FALSE, TRUE, NoMeta)
       IN Apply(a.s, V, op, Tail(es), ev \o a.ev)
DoAnnounce(st, c) ==
  LET src == st.srcs[c.src]
      V == LView(st, st.ldrs[src.ld])
      ops == Image(Split(c.ev, "+"))
      set == ops \cap {"create", "write"} # {}
      rem == "remove" \in ops
  IN IF ~src.watched \/ ~(set \/ rem) THEN [s |-> st, r |-> [ev |-> <<>>]]
     ELSE LET a == Apply(st, V, IF set THEN "set" ELSE "remove", c.es, <<>>) IN [s |-> a.s, r |-> [ev |-> a.ev]]
DoSources(st, c) == [s |-> st, r |-> [src |-> [i \in DOMAIN st.srcs |-> <<st.srcs[i].watched, st.srcs[i].closed>>]]]

-----------------------------------------------------------------------------
Call(st, c) ==
  CASE c.op = "set"      -> DoSet(st, c)
    [] c.op = "get"      -> DoGet(st, c)
    [] c.op = "remove"   -> DoRemove(st, c)
    [] c.op = "content"  -> DoContent(st, c)
    [] c.op = "has"      -> DoHas(st, c)
    [] c.op = "query"    -> DoQuery(st, c)
    [] c.op = "locate"   -> DoLocate(st, c)
    [] c.op = "getex"    -> DoGetEx(st, c)
    [] c.op = "haspart"  -> DoHasPart(st, c)
    [] c.op = "metaof"   -> DoMetaOf(st, c)
    [] c.op = "modof"    -> DoModOf(st, c)
    [] c.op = "getr"     -> DoGetR(st, c)
    [] c.op = "getm"     -> DoGetM(st, c)
    [] c.op = "walk"     -> DoWalk(st, c)
    [] c.op = "insert"   -> DoInsert(st, c)
    [] c.op = "setex"    -> DoSetEx(st, c)
    [] c.op = "setnode"  -> DoSetNode(st, c)
    [] c.op = "setempty" -> DoSetEmpty(st, c)
    [] c.op = "update"   -> DoUpdate(st, c)
    [] c.op = "setcomment" -> DoSetComment(st, c)
    [] c.op = "settag"   -> DoSetTag(st, c)
    [] c.op = "merge"    -> DoMerge(st, c)
    [] c.op = "mutate"   -> DoMutate(st, c)
    [] c.op = "new"      -> DoNew(st, c)
    [] c.op = "withprefix"  -> DoWithPrefix(st, c)
    [] c.op = "withprefixr" -> DoWithPrefixR(st, c)
    [] c.op = "setprefix" -> DoSetPrefix(st, c)
    [] c.op = "setdelim" -> DoSetDelim(st, c)
    [] c.op = "mode"     -> DoMode(st, c)
    [] c.op = "clone"    -> DoClone(st, c)
    [] c.op = "viewinfo" -> DoViewInfo(st, c)
    [] c.op \in {"nread", "ndata", "ncomment", "ntag", "nempty", "nmod", "ntoggle", "nreset"} -> DoNode(st, c)
    [] c.op = "handle"   -> DoHandle(st, c)
    [] c.op = "ttl"      -> DoTTL(st, c)
    [] c.op = "ttlfast"  -> DoTTLFast(st, c)
    [] c.op = "advance"  -> DoAdvance(st, c)
    [] c.op = "close"    -> DoClose(st, c)
    [] c.op = "load"     -> DoLoad(st, c)
    [] c.op = "nest"     -> DoNest(st, c)
    [] c.op = "save"     -> DoSave(st, c)
    [] c.op = "roundtrip" -> DoRoundTrip(st, c)
    [] c.op = "announce" -> DoAnnounce(st, c)
    [] c.op = "sources"  -> DoSources(st, c)

RECURSIVE Run(_, _)
Run(st, cs) == IF cs = <<>> THEN st ELSE Run(Call(st, Head(cs)).s, Tail(cs))
=============================================================================
