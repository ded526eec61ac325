-------------------------------- MODULE Laws ---------------------------------
(***************************************************************************)
(* The properties, stated on the specification and checked by TLC on every *)
(* step of every behaviour it generates: what a call c, answered by r, may *)
(* have done between the states prev and st.  They are written without the *)
(* operators the transitions are made of (sections are sequences of        *)
(* segments here), so that a slip in the specification shows.              *)
(***************************************************************************)
EXTENDS Calls, IOUtils

(* the key k is at or beneath the path p; beneath it, if p ends with the delimiter *)
Sec(k, p, d) ==
  LET s == Split(k, d)  q == Split(p, d)  n == Len(q) IN
  IF q[n] = "" THEN Len(s) >= n /\ s[n] # "" /\ SubSeq(s, 1, n - 1) = SubSeq(q, 1, n - 1)
  ELSE Len(s) >= n /\ SubSeq(s, 1, n) = q
InSec(K, p, d) == {k \in K : Sec(k, p, d)}
RECURSIVE Chain(_, _)
Chain(ss, d) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o d \o Chain(Tail(ss), d)

Trees(st) == st.trees
Entries(st, t) == st.trees[t].kv
SameBut(kv, kv1, S) == /\ DOMAIN kv \ S = DOMAIN kv1 \ S
                       /\ \A k \in DOMAIN kv \ S : kv[k] = kv1[k]
(* nothing changed but the keys in S of tree t *)
Only(prev, st, t, S) ==
  /\ Len(st.trees) = Len(prev.trees)
  /\ \A i \in DOMAIN prev.trees : IF i = t THEN SameBut(prev.trees[i].kv, st.trees[i].kv, S) ELSE prev.trees[i].kv = st.trees[i].kv
Same(prev, st) == Only(prev, st, 0, {})
Without(r, F) == [f \in DOMAIN r \ F |-> r[f]]

Readers == {"get", "has", "query", "locate", "haspart", "metaof", "modof", "getr", "getm", "walk", "content", "nread", "viewinfo", "sources", "save",
            "roundtrip", "typed", "tcontent", "size", "route", "section", "fcontent", "cdec", "cenc", "handle", "mode", "withprefix", "withprefixr", "setprefix", "setdelim", "close", "ttl", "ttlfast",
            "fput", "fbad", "fdel", "fsave"}
OneKey  == {"set", "insert", "setex", "setnode", "setempty", "update", "settag", "setcomment", "mutate", "tset"}
ByPath  == (OneKey \ {"mutate", "tset"}) \cup {"remove", "merge", "get", "has", "query", "locate", "getex", "haspart", "metaof", "modof"}
Skipped(r) == "skip" \in DOMAIN r
Ask(c) == "h" \in DOMAIN c

-----------------------------------------------------------------------------
LawWrite(prev, c, r, st) ==       \* C01
  c.op \in OneKey =>
    LET V == prev.views[c.h]  k == Full(V, c.p)  kv == Entries(prev, V.tree) IN
    /\ Only(prev, st, V.tree, {k})
    /\ "old" \in DOMAIN r => r.old = IF k \in DOMAIN kv THEN kv[k].v ELSE "nil"
    /\ c.op \in {"set", "insert", "setnode"} => k \in DOMAIN Entries(st, V.tree) /\ Entries(st, V.tree)[k].v = c.v

LawFound(prev, c, r, st) ==       \* C02
  c.op \in {"get", "has", "query", "locate", "haspart"} /\ prev.views[c.h].mode = "n" /\ Full(prev.views[c.h], c.p) # "" =>
    LET V == prev.views[c.h]  p == Full(V, c.p)  kv == Entries(prev, V.tree) IN
    /\ c.op # "haspart" => (r.f <=> InSec(DOMAIN kv, p, V.delim) # {})
    /\ c.op = "haspart" => (r.f <=> \E k \in DOMAIN kv : Len(p) <= Len(k) /\ SubSeq(k, 1, Len(p)) = p)
    /\ "v" \in DOMAIN r => r.v = IF p \in DOMAIN kv THEN kv[p].v ELSE "nil"
    /\ "b" \in DOMAIN r => (r.b <=> (r.f /\ p \notin DOMAIN kv))

LawRemove(prev, c, r, st) ==      \* C03
  c.op = "remove" =>
    LET V == prev.views[c.h]  p == Full(V, c.p)  kv == Entries(prev, V.tree)
        S == IF p = "" THEN {} ELSE InSec(DOMAIN kv, p, V.delim) IN
    /\ Only(prev, st, V.tree, S)
    /\ S \cap DOMAIN Entries(st, V.tree) = {}
    /\ r.ok <=> S # {}

LawExtract(prev, c, r, st) ==     \* C04
  c.op \in {"getr", "getm", "walk"} /\ ~Skipped(r) /\ prev.views[c.h].mode = "n" =>
    LET V == prev.views[c.h]  kv == Entries(prev, V.tree)  d == V.delim
        root == c.p \in {"", ".", "(root)"}
        p == IF root THEN Norm(V.prefix) ELSE Full(V, c.p)
        S == IF p = "" THEN DOMAIN kv ELSE InSec(DOMAIN kv, p, d)
        A == IF c.op = "getm" THEN {k \in S : Accepts(kv[k], c.flt)} ELSE S
    IN IF c.op # "getm" THEN r.m = {<<k, kv[k].v>> : k \in S} /\ (c.op = "getr" => (r.nil <=> (S = {} /\ ~root)))
       ELSE /\ Cardinality(r.m) = Cardinality(A)
            /\ r.nil <=> (S = {} /\ ~root)
            /\ \A k \in A : \E x \in r.m :
                 /\ x[2] = kv[k].v
                 /\ LET n == Chain(x[1], d) IN
                    IF c.keep \/ p = "" THEN n = k
                    ELSE IF k = p THEN n = LastOf(Split(k, d))
                    ELSE k = (IF EndsWith(p, d) THEN p ELSE p \o d) \o n

(* the same call on the root *)
LawAlias(prev, c, r, st) ==       \* C05
  /\ (Ask(c) /\ c.op \in ByPath \cup {"getr", "getm"}) => LET V == prev.views[c.h] IN
       (V.prefix # "" /\ (c.op \in {"getr", "getm"} => ~(c.p \in {"", ".", "(root)"}))) =>
         LET x == Exec([prev EXCEPT !.views[c.h].prefix = ""], [c EXCEPT !.p = IF c.p = "" THEN V.prefix ELSE V.prefix \o V.delim \o c.p])
         IN x.s.trees = st.trees /\ Without(x.r, {"ev"}) = Without(r, {"ev"})
  /\ c.op \in {"withprefix", "withprefixr"} => Same(prev, st) /\ \A i \in DOMAIN prev.views : st.views[i] = prev.views[i]
  /\ c.op = "setprefix" => Same(prev, st) /\ \A i \in DOMAIN prev.views \ {c.h} : st.views[i] = prev.views[i]

LawClone(prev, c, r, st) ==       \* C06
  /\ c.op = "clone" =>
       LET T == prev.trees[prev.views[c.h].tree].kv  U == st.trees[Len(st.trees)].kv IN
       /\ Len(st.trees) = Len(prev.trees) + 1 /\ SubSeq(st.trees, 1, Len(prev.trees)) = prev.trees
       /\ DOMAIN T = DOMAIN U /\ \A k \in DOMAIN T : Without(T[k], {"i"}) = Without(U[k], {"i"})
  /\ (Ask(c) /\ c.op # "clone") => \A i \in DOMAIN prev.trees : i # prev.views[c.h].tree => prev.trees[i].kv = st.trees[i].kv

LawMeta(prev, c, r, st) ==        \* C07
  LET kept(F) == LET V == prev.views[c.h]  k == Full(V, c.p)  kv == Entries(prev, V.tree) IN
                 k \in DOMAIN kv => \A f \in F : Entries(st, V.tree)[k][f] = kv[k][f]
  IN /\ (c.op \in {"set", "insert"} \/ (c.op = "setex" /\ c.act = "")) => kept({"d", "c", "t"})
     /\ c.op = "settag" => kept({"v", "d", "c", "m"})
     /\ c.op = "setcomment" => kept({"v", "t", "m"})
     /\ c.op \in {"settag", "setcomment"} => LET V == prev.views[c.h] IN
          /\ r.ok <=> Full(V, c.p) \in DOMAIN Entries(prev, V.tree)
          /\ DOMAIN Entries(st, V.tree) = DOMAIN Entries(prev, V.tree)
     /\ c.op = "set" => LET V == prev.views[c.h]  k == Full(V, c.p) IN
          k \notin DOMAIN Entries(prev, V.tree) => LET e == Entries(st, V.tree)[k] IN e.d = "" /\ e.c = "" /\ e.t = "nil"

Mark(kv, k) == k \in DOMAIN kv /\ kv[k].m
LawMark(prev, c, r, st) ==        \* C08
  Ask(c) /\ c.op \in {"set", "merge", "load", "nest", "prov", "fload"} =>
    LET t == prev.views[c.h].tree  kv == Entries(prev, t)  kv1 == Entries(st, t)
        user == c.op \in {"set", "merge"} /\ ~c.ld /\ IsStore(prev, t) IN
    /\ ~user => \A k \in DOMAIN kv1 : Mark(kv1, k) = Mark(kv, k)
    /\ user => \A k \in DOMAIN kv1 : (k \notin DOMAIN kv \/ kv[k] # kv1[k]) => kv1[k].m

(* the keys of the leaves of a document; those of lists which are expanded lie beneath *)
LawLeaves(prev, c, r, st) ==      \* C09
  c.op \in {"merge", "load"} /\ (c.op = "load" => r.wr) =>
    LET V == prev.views[c.h]  d == V.delim  t == V.tree  kv1 == Entries(st, t)
        pos == IF c.op = "merge" THEN Full(V, c.p) ELSE IF c.sp # "" THEN c.sp ELSE V.prefix
        on  == IF c.op = "merge" THEN (IsStore(prev, t) => V.flat) ELSE IF c.fl = "" THEN V.flat ELSE c.fl = "on"
        key(l) == Norm(IF pos = "" THEN Chain(l.s, d) ELSE pos \o d \o Chain(l.s, d))
        list(l) == on /\ Kind(l.v) \in {"la", "lm", "lx", "ly", "lw", "ln"} /\ (AnyKeyed(l.v) => IsStore(prev, t))
        touched == {k \in DOMAIN kv1 : \E i \in DOMAIN c.lv : IF list(c.lv[i]) THEN Sec(k, key(c.lv[i]) \o d, d) ELSE k = key(c.lv[i])}
    IN /\ Only(prev, st, t, touched)
       /\ \A i \in DOMAIN c.lv :
            LET k == key(c.lv[i]) IN
            IF list(c.lv[i]) THEN \A n \in {0, 1} : (n = 1 => Len(Items(c.lv[i].v)) > 1) => \E x \in DOMAIN kv1 : Sec(x, k \o d \o ToString(n), d)
            ELSE k \in DOMAIN kv1 /\ ((\A j \in DOMAIN c.lv : j # i => (key(c.lv[j]) # k /\ ~list(c.lv[j]))) => kv1[k].v = c.lv[i].v)

LawSave(prev, c, r, st) ==        \* C10
  c.op = "save" /\ ~Skipped(r) =>
    LET l == prev.ldrs[c.l]  V == LView(prev, l)  kv == Entries(prev, V.tree)  p == Norm(V.prefix)
        S == {k \in IF p = "" THEN DOMAIN kv ELSE InSec(DOMAIN kv, p, V.delim) : c.as \/ kv[k].m} IN
    /\ st = prev
    /\ r.n = 1 <=> (S # {} /\ ~r.err)
    /\ r.n = 1 => /\ Cardinality(r.m) = Cardinality(S)
                  /\ \A k \in S \ {p} : \E x \in r.m : x[2] = kv[k].v /\ k = IF p = "" THEN Chain(x[1], V.delim) ELSE p \o V.delim \o Chain(x[1], V.delim)
    /\ c.fail # "" /\ S # {} => r.err

LawEvents(prev, c, r, st) ==      \* C11
  "ev" \in DOMAIN r /\ Ask(c) /\ c.op # "announce" =>
    LET V == prev.views[c.h]  T == prev.trees[V.tree]  kv == T.kv  kv1 == Entries(st, V.tree)
        n(kind, k) == Cardinality({i \in DOMAIN r.ev : r.ev[i][1] = kind /\ r.ev[i][2] = k})
        key(i) == r.ev[i][2]
    IN IF ~T.hand \/ c.op \in {"insert", "setex", "setnode", "setempty", "update"} THEN r.ev = <<>>
       ELSE prev.views[T.base].prefix = "" =>
         /\ \A k \in DOMAIN kv1 \ DOMAIN kv : n("new", k) = 1 /\ n("del", k) = 0
         /\ \A k \in DOMAIN kv1 \cap DOMAIN kv : n("new", k) = 0 /\ (kv[k].v # kv1[k].v => n("chg", k) >= 1)
         /\ \A i \in DOMAIN r.ev :
              /\ r.ev[i][1] = "new" => key(i) \in DOMAIN kv1 \ DOMAIN kv
              /\ r.ev[i][1] = "chg" => key(i) \in DOMAIN kv1 /\ (n("chg", key(i)) = 1 /\ key(i) \in DOMAIN kv => r.ev[i][4] = kv[key(i)].v)
              /\ ((r.ev[i][1] = "chg" /\ n("chg", key(i)) = 1) \/ (r.ev[i][1] = "new" /\ n("chg", key(i)) = 0)) => r.ev[i][3] = kv1[key(i)].v
              /\ r.ev[i][1] = "del" => c.op = "remove" /\ key(i) \notin DOMAIN kv1
              /\ r.ev[i][5] = (IF c.op \in {"set", "remove"} THEN c.ld ELSE TRUE)
         /\ c.op = "remove" => Len(r.ev) = IF DOMAIN kv = DOMAIN kv1 THEN 0 ELSE 1
         /\ c.op = "set" => Len(r.ev) = 1

LawTTL(prev, c, r, st, hist) ==   \* C12
  /\ \A j \in st.jobs : j.due > st.now
  /\ c.op = "advance" =>
       LET D == {j \in prev.jobs : j.due <= st.now}
           id(x) == {i \in DOMAIN r.cb : r.cb[i][1] = x}
           hits(t) == UNION {{k \in DOMAIN Entries(prev, t) : k = j.k \/ (j.sec /\ Sec(k, j.k, st.views[st.trees[t].base].delim))} : j \in {x \in D : x.t = t}}
       IN /\ \A j \in D : Cardinality(id(j.id)) = IF j.cb THEN 1 ELSE 0
          /\ Len(r.cb) = Cardinality({j \in D : j.cb})
          /\ \A i, j \in DOMAIN r.cb : i < j => (CHOOSE x \in D : x.id = r.cb[i][1]).due <= (CHOOSE x \in D : x.id = r.cb[j][1]).due
          /\ \A t \in DOMAIN prev.trees : SameBut(Entries(prev, t), Entries(st, t), hits(t))
          /\ \A n \in 1..(Len(hist) - 1) : hist[n].c.op = "advance" => \A i \in DOMAIN hist[n].r.cb : id(hist[n].r.cb[i][1]) = {}
  /\ c.op = "close" /\ prev.trees[prev.views[c.h].tree].base = c.h => \A j \in st.jobs : j.t # prev.views[c.h].tree

(* putting the bound values back into the pattern gives the path *)
LawRoute(prev, c, r, st) ==       \* C13
  c.op = "route" =>
    LET V == prev.views[c.h]  q == Full(V, c.p)  kv == Entries(prev, V.tree)  d == V.delim IN
    IF ~r.hit THEN q \notin DOMAIN kv /\ \A k \in DOMAIN kv : IsPattern(k, d) => ~Matches(Split(k, d), Split(q, d))
    ELSE LET s == Split(r.key, d)
             back(x) == IF Len(x) > 0 /\ SubSeq(x, 1, 1) \in {":", "*"} /\ (\E b \in r.m : b[1] = DropN(x, 1)) THEN (CHOOSE b \in r.m : b[1] = DropN(x, 1))[2] ELSE x
         IN /\ r.key \in DOMAIN kv /\ r.v = kv[r.key].v
            /\ Chain([i \in DOMAIN s |-> back(s[i])], d) = q
            /\ q \in DOMAIN kv /\ ~IsPattern(q, d) => r.key = q

(* the longest enclosing section that has it *)
LawUp(prev, c, r, st) ==          \* C14
  c.op \in {"get", "query", "locate"} /\ prev.views[c.h].mode = "u" /\ Full(prev.views[c.h], c.p) # "" =>
    LET V == prev.views[c.h]  d == V.delim  kv == Entries(prev, V.tree)
        s == Split(Full(V, c.p), d)  n == Len(s)
        at(i) == Chain(SubSeq(s, 1, i) \o <<s[n]>>, d)
        H == {i \in (IF n = 1 THEN {0} ELSE 1..(n - 1)) : InSec(DOMAIN kv, at(i), d) # {}}
        top == CHOOSE i \in H : \A j \in H : j <= i
    IN /\ r.f <=> H # {}
       /\ r.f => r.v = IF at(top) \in DOMAIN kv THEN kv[at(top)].v ELSE "nil"

(* another character in place of the delimiter *)
LawDelim(prev, c, r, st) ==       \* C15
  Ask(c) /\ c.op \in {"set", "remove", "get", "has", "query", "getr", "merge"} /\ (c.op = "getr" => c.p # ".") =>
    LET d == prev.views[c.h].delim
        T(s) == Subst(s, d, "¦")
        TK(kv) == [k \in {T(x) : x \in DOMAIN kv} |-> kv[CHOOSE x \in DOMAIN kv : T(x) = k]]
        t == prev.views[c.h].tree
        p1 == [prev EXCEPT !.views[c.h].delim = "¦", !.views[c.h].prefix = T(@), !.trees[t].kv = TK(@)]
        x == Exec(p1, [c EXCEPT !.p = T(@)])
    IN /\ x.s.trees[t].kv = TK(st.trees[t].kv)
       /\ IF c.op = "getr" THEN x.r.m = {<<T(y[1]), y[2]>> : y \in r.m} ELSE Without(x.r, {"ev"}) = Without(r, {"ev"})

LawTyped(prev, c, r, st) ==       \* C16
  c.op = "typed" =>
    LET V == prev.views[c.h]  kv == Entries(prev, V.tree)  k == Full(V, c.p) IN
    V.mode = "n" /\ k # "" => IF InSec(DOMAIN kv, k, V.delim) = {} THEN r.e /\ (~c.b => r.v = Zero(c.ty))
                              ELSE Skipped(r) \/ (~r.e /\ k \in DOMAIN kv /\ EndsWith(kv[k].v, "|" \o r.v))

LawWatch(prev, c, r, st) ==       \* C17
  /\ c.op = "announce" =>
       LET src == prev.srcs[c.src]  V == LView(prev, prev.ldrs[src.ld])  t == src.t  kv1 == Entries(st, t)
           ops == Image(Split(c.ev, "+"))
           key(i) == Full(V, c.es[i][1])
           ks == {key(i) : i \in DOMAIN c.es}
       IN IF ~src.watched \/ ops \cap {"create", "write", "remove"} = {} THEN st = prev
          ELSE IF ops \cap {"create", "write"} # {} THEN Only(prev, st, t, ks) /\ \A i \in DOMAIN c.es : key(i) \in DOMAIN kv1 /\ (Cardinality(ks) = Len(c.es) => kv1[key(i)].v = c.es[i][2])
          ELSE LET D == UNION {InSec(DOMAIN Entries(prev, t), k, V.delim) : k \in ks} IN Only(prev, st, t, D) /\ D \cap DOMAIN kv1 = {}
  /\ c.op = "close" /\ prev.trees[prev.views[c.h].tree].base = c.h =>
       \A i \in DOMAIN st.srcs : st.srcs[i].closed = prev.srcs[i].closed + (IF prev.srcs[i].watched /\ prev.srcs[i].t = prev.views[c.h].tree THEN 1 ELSE 0)
  /\ c.op = "load" => LET V == prev.views[c.h] IN st.srcs[Len(st.srcs)].watched => V.watch /\ ~c.nw

LawOnce(prev, c, r, st) ==        \* C18
  c.op \in {"setex", "update", "getex"} =>
    LET V == prev.views[c.h]  k == Full(V, c.p)  kv == Entries(prev, V.tree) IN
    /\ c.op # "getex" => Len(r.cb) = 1 /\ r.cb[1][1] = k /\ Only(prev, st, V.tree, {k})
    /\ c.op = "getex" /\ V.mode = "n" => /\ (Len(r.cb) = 1) <=> (InSec(DOMAIN kv, k, V.delim) # {})
                                         /\ Len(r.cb) <= 1
                                         /\ Only(prev, st, V.tree, {k}) /\ DOMAIN Entries(st, V.tree) = DOMAIN kv

LawHandle(prev, c, r, st) ==      \* C19
  c.op \in {"nread", "ndata", "ncomment", "ntag", "nempty", "nmod", "ntoggle", "nreset"} =>
    LET x == prev.nh[c.n] IN
    IF Alive(prev, c.n) THEN /\ Only(prev, st, x.t, {x.k}) /\ x.k \in DOMAIN Entries(st, x.t)
                             /\ Entries(st, x.t)[x.k].i = x.i
                             /\ c.op = "nread" => r.key = x.k /\ r.v = Entries(prev, x.t)[x.k].v
    ELSE Same(prev, st)

LawFailed(prev, c, r, st) ==      \* C20
  /\ c.op \in {"load", "fload"} /\ ~r.wr => Same(prev, st)
  /\ c.op = "load" /\ c.fail \in {"read", "bytes", "codec", "read+", "bytes+", "codec+"} => r.err /\ ~r.wr
  /\ c.op = "nest" => \A k \in DOMAIN Entries(prev, prev.views[c.h].tree) : Mark(Entries(st, prev.views[c.h].tree), k) = Mark(Entries(prev, prev.views[c.h].tree), k)

LawProv(prev, c, r, st) ==        \* C21
  c.op = "prov" =>
    LET pre == IF c.src = "env" THEN Upper(c.opt.pre) ELSE c.opt.pre
        taken == {i \in DOMAIN c.env : Len(c.env[i][1]) >= Len(pre) /\ SubSeq(c.env[i][1], 1, Len(pre)) = pre} IN
    /\ \A x \in r.m : \E i \in taken : c.env[i][2] = x[2]
    /\ \A i \in taken : \E x \in r.m : c.env[i][2] = x[2]
    /\ r.n = Cardinality(r.m)
    /\ r.f <=> \E x \in r.m : x[1] = c.p
    /\ ~c.b => st = prev

Plain(s) == s # "" /\ SubSeq(s, 1, 1) # "0" /\ \A i \in 1..Len(s) : SubSeq(s, i, i) \in Image(Chars("0123456789"))
LawSize(prev, c, r, st) ==        \* C22
  c.op = "size" /\ ~Skipped(r) /\ prev.views[c.h].mode = "n" =>
    LET V == prev.views[c.h]  kv == Entries(prev, V.tree)  k == Full(V, c.p)  s == IF k \in DOMAIN kv THEN DropN(kv[k].v, 2) ELSE "" IN
    /\ Plain(s) => r.v = s
    /\ Len(s) > 1 /\ Plain(SubSeq(s, 1, Len(s) - 1)) /\ Len(s) < 5 /\ EndsWith(s, "K") => r.v = ToString(atoi(SubSeq(s, 1, Len(s) - 1)) * (IF c.ty = "KibiBytes" THEN 1024 ELSE 1000))

LawSection(prev, c, r, st) ==     \* C23
  c.op = "section" /\ ~Skipped(r) /\ ~c.b /\ ~c.w /\ prev.views[c.h].mode = "n" =>
    LET V == prev.views[c.h]  kv == Entries(prev, V.tree)  d == V.delim
        root == c.p \in {"", ".", "(root)"}
        p == IF root THEN Norm(V.prefix) ELSE Full(V, c.p)
        q == IF p = "" THEN "" ELSE IF EndsWith(p, d) THEN p ELSE p \o d
    IN \A x \in r.m :
         LET k == IF c.keep THEN Chain(x[1], d) ELSE q \o Chain(x[1], d)
             one == p \in DOMAIN kv /\ <<LastOf(Split(p, d))>> = x[1] /\ ~c.keep     \* a single value is a section of its own
             e == IF one THEN kv[p] ELSE kv[k]
             in == one \/ (k \in DOMAIN kv /\ (p = "" \/ Sec(k, p, d)))
         IN IF in /\ Accepts(e, c.flt) THEN x[2] = e.v \/ e.v = "nil" \/ StartsWith(e.v, "la:")
            ELSE x[2] \in {"s:", "i:0", "b:false", "f:0", "nil"}

LawFiles(prev, c, r, st) ==       \* C24
  /\ c.op \in {"fput", "fbad", "fdel"} => \A f \in DOMAIN st.files \ {c.f} : st.files[f] = prev.files[f]
  /\ c.op \in {"fload", "fcontent", "cdec", "cenc", "set", "remove"} => st.files = prev.files
  /\ c.op = "fload" => (r.err <=> prev.files[c.f].st # "doc") /\ (r.err => Same(prev, st))
  /\ c.op = "fsave" => /\ \A f \in DOMAIN st.files : st.files[f] # prev.files[f] => ~r.err /\ f = (IF c.as THEN c.f ELSE prev.ldrs[c.l].f) /\ (IF c.as THEN c.b ELSE prev.ldrs[c.l].wr)
                       /\ Same(prev, st)

Law(P, prev, step, st, hist) ==
  LET c == step.c  r == step.r IN
  /\ c.op \in Readers => Same(prev, st)
  /\ CASE P = "C01" -> LawWrite(prev, c, r, st)
       [] P = "C02" -> LawFound(prev, c, r, st)
       [] P = "C03" -> LawRemove(prev, c, r, st) /\ LawWrite(prev, c, r, st)
       [] P = "C04" -> LawExtract(prev, c, r, st)
       [] P = "C05" -> LawAlias(prev, c, r, st)
       [] P = "C06" -> LawClone(prev, c, r, st)
       [] P = "C07" -> LawMeta(prev, c, r, st)
       [] P = "C08" -> LawMark(prev, c, r, st)
       [] P = "C09" -> LawLeaves(prev, c, r, st)
       [] P = "C10" -> LawSave(prev, c, r, st)
       [] P = "C11" -> LawEvents(prev, c, r, st)
       [] P = "C12" -> LawTTL(prev, c, r, st, hist)
       [] P = "C13" -> LawRoute(prev, c, r, st)
       [] P = "C14" -> LawUp(prev, c, r, st)
       [] P = "C15" -> LawDelim(prev, c, r, st)
       [] P = "C16" -> LawTyped(prev, c, r, st)
       [] P = "C17" -> LawWatch(prev, c, r, st)
       [] P = "C18" -> LawOnce(prev, c, r, st)
       [] P = "C19" -> LawHandle(prev, c, r, st)
       [] P = "C20" -> LawFailed(prev, c, r, st)
       [] P = "C21" -> LawProv(prev, c, r, st)
       [] P = "C22" -> LawSize(prev, c, r, st)
       [] P = "C23" -> LawSection(prev, c, r, st)
       [] P = "C24" -> LawFiles(prev, c, r, st)
=============================================================================
