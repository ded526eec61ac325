-------------------------------- MODULE Routes -------------------------------
(***************************************************************************)
(* Route patterns: a stored key whose segments may be ":name" (matches one *)
(* segment) and, at the end, "*name" (matches the non-empty rest).         *)
(***************************************************************************)
EXTENDS StoreCore

IsParam(s) == Len(s) > 1 /\ StartsWith(s, ":")
IsWild(s)  == Len(s) > 0 /\ StartsWith(s, "*")
IsPattern(k, d) == LET s == Split(k, d) IN \E i \in DOMAIN s : IsParam(s[i]) \/ IsWild(s[i])

(* the path q (segments) matches the pattern s (segments) *)
Matches(s, q) ==
  LET w == IsWild(LastOf(s))
      n == IF w THEN Len(s) - 1 ELSE Len(s) IN
  /\ IF w THEN Len(q) > n ELSE Len(q) = n
  /\ \A i \in 1..n : IF IsParam(s[i]) THEN q[i] # "" ELSE s[i] = q[i]
Binds(s, q, d) ==
  {<<DropN(s[i], 1), IF IsWild(s[i]) THEN JoinAll(SubSeq(q, i, Len(q)), d) ELSE q[i]>>
     : i \in {j \in DOMAIN s : IsParam(s[j]) \/ (IsWild(s[j]) /\ j = Len(s))}}

Rank(x) == IF IsWild(x) THEN 2 ELSE IF IsParam(x) THEN 1 ELSE 0
(* s is more specific than t: literal before ":" before "*" at the first difference *)
Better(s, t) == \E i \in DOMAIN s : /\ i \in DOMAIN t /\ Rank(s[i]) < Rank(t[i])
                                    /\ \A j \in 1..(i - 1) : Rank(s[j]) = Rank(t[j])
Best(K, q, d) ==
  LET M == {k \in K : Matches(Split(k, d), q)} IN
  IF M = {} THEN "" ELSE CHOOSE k \in M : \A x \in M : x = k \/ Better(Split(k, d), Split(x, d))

DoRoute(st, c) ==
  LET V == st.views[c.h]  d == V.delim  kv == KV(st, c.h)
      q == Split(Full(V, c.p), d)
      k == Best(DOMAIN kv, q, d)
  IN [s |-> st, r |-> IF k = "" THEN [hit |-> FALSE]
                      ELSE [hit |-> TRUE, key |-> k, v |-> kv[k].v, m |-> Binds(Split(k, d), q, d)]]

(* at one position, one name for the parameter, and not both ":" and "*" *)
Compatible(k1, k2, d) ==
  LET s == Split(k1, d)  t == Split(k2, d)
      n == IF Len(s) < Len(t) THEN Len(s) ELSE Len(t) IN
  \A i \in 1..n : (\A j \in 1..(i - 1) : s[j] = t[j]) =>
     ((Rank(s[i]) > 0 /\ Rank(t[i]) > 0) => s[i] = t[i])
=============================================================================
