------------------------------ MODULE Providers ------------------------------
(***************************************************************************)
(* The environment and command-line-flag providers.  env: a sequence of    *)
(* <<name, value>>; opt: their options.                                    *)
(***************************************************************************)
EXTENDS StoreCore

UpperC == Append(Chars("ABCDEFGHIJKLMNOPQRSTUVWXYZ"), "É")
LowerC == Append(Chars("abcdefghijklmnopqrstuvwxyz"), "é")
LowC(ch) == IF \E i \in DOMAIN UpperC : UpperC[i] = ch THEN LowerC[CHOOSE i \in DOMAIN UpperC : UpperC[i] = ch] ELSE ch
UpC(ch)  == IF \E i \in DOMAIN LowerC : LowerC[i] = ch THEN UpperC[CHOOSE i \in DOMAIN LowerC : LowerC[i] = ch] ELSE ch
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE LowC(SubSeq(s, 1, 1)) \o Lower(DropN(s, 1))
RECURSIVE Upper(_)
Upper(s) == IF s = "" THEN "" ELSE UpC(SubSeq(s, 1, 1)) \o Upper(DropN(s, 1))
(* an underscore in front of something else becomes a dot, but not at the beginning *)
RECURSIVE U2DAt(_, _)
U2DAt(s, i) ==
  IF i > Len(s) THEN "" ELSE
  (IF i > 1 /\ i < Len(s) /\ SubSeq(s, i, i) = "_" /\ SubSeq(s, i + 1, i + 1) # "_" THEN "." ELSE SubSeq(s, i, i)) \o U2DAt(s, i + 1)

KeyOf(name, o) ==
  LET a == IF o.lower THEN Lower(name) ELSE name
      b == TrimPre(a, o.strip)
      u == IF o.u2d THEN U2DAt(b, 1) ELSE b
      k == IF o.cb THEN "x" \o u ELSE u
  IN IF o.sp # "" THEN o.sp \o "." \o k ELSE k
Takes(kind, name, o) == StartsWith(name, IF kind = "env" THEN Upper(o.pre) ELSE o.pre)

Supplied(c) == SelectSeq(c.env, LAMBDA e : Takes(c.src, e[1], c.opt))
SupKeys(c) == LET E == Supplied(c) IN [i \in DOMAIN E |-> KeyOf(E[i][1], c.opt)]
SupDistinct(c) == LET k == SupKeys(c) IN \A i, j \in DOMAIN k : i # j => k[i] # k[j]

(* flags bring their usage and default along *)
ProvLeaves(c) ==
  LET E == Supplied(c) IN
  [i \in DOMAIN E |-> [s |-> <<KeyOf(E[i][1], c.opt)>>, v |-> E[i][2], c |-> "",
                       d |-> IF c.src = "flags" THEN "usage of " \o E[i][1] ELSE "",
                       t |-> IF c.src = "flags" THEN "s:" \o E[i][3] ELSE "nil"]]
(* b: load it into the store as well; else it is only read; p: a key to ask for *)
DoProv(st, c) ==
  LET V == st.views[c.h]
      a == SetLeaves(Acc(st), V.tree, V.prefix, V.delim, ProvLeaves(c), V.flat, FALSE)
      L == ProvLeaves(c)
      S == {<<L[i].s[1], L[i].v>> : i \in DOMAIN L}
  IN [s |-> IF c.b THEN [a.s EXCEPT !.ldrs = Append(@, [ok |-> TRUE, ref |-> c.h, view |-> V, cd |-> "", kind |-> c.src, by |-> c.h]),
                                    !.srcs = Append(@, [watched |-> FALSE, closed |-> 0, t |-> V.tree, ld |-> Len(st.ldrs) + 1])]
            ELSE st,
      r |-> [n |-> Cardinality(S), m |-> S,
             v |-> IF \E x \in S : x[1] = c.p THEN (CHOOSE x \in S : x[1] = c.p)[2] ELSE "nil",
             f |-> \E x \in S : x[1] = c.p]]
=============================================================================
