------------------------------- MODULE Sections -------------------------------
(***************************************************************************)
(* Decoding a section of a store into a struct.  The struct is the one of  *)
(* harness/section.go: Fields gives the path of every field and its kind.  *)
(***************************************************************************)
EXTENDS StoreCore

DeepF == { << <<"level">>, "i">>, << <<"name">>, "s">> }
SubF  == { << <<"name">>, "s">>, << <<"port">>, "i">> } \cup { << <<"deep">> \o x[1], x[2]>> : x \in DeepF }
Fields == { << <<"name">>, "s">>, << <<"names">>, "s">>, << <<"port">>, "i">>, << <<"on">>, "b">>, << <<"rate">>, "f">>, << <<"tags">>, "ls">>, << <<"n1">>, "s">> }
          \cup { << <<"sub">> \o x[1], x[2]>> : x \in SubF } \cup { << <<"subs">> \o x[1], x[2]>> : x \in SubF }
ZeroOf(kind) == CASE kind = "s" -> "s:" [] kind = "i" -> "i:0" [] kind = "b" -> "b:false" [] kind = "f" -> "f:0" [] kind = "ls" -> "nil"
(* what the struct held before, if it was not empty (c.w) *)
Before(kind) == CASE kind = "s" -> "s:old" [] kind = "i" -> "i:77" [] kind = "b" -> "b:true" [] kind = "f" -> "f:7.5" [] kind = "ls" -> "ls:o,p"

(* a list of strings is one, however it is stored *)
AsField(v, kind) == IF v = "nil" THEN ZeroOf(kind) ELSE IF kind = "ls" /\ Kind(v) = "la" THEN "ls:" \o DropN(v, 3) ELSE v
FieldKind(segs) == IF \E x \in Fields : x[1] = segs THEN (CHOOSE x \in Fields : x[1] = segs)[2] ELSE ""
(* names of structs, which a plain value does not fit into *)
Structs == { <<"sub">>, <<"subs">>, <<"sub", "deep">>, <<"subs", "deep">> }
FitsField(v, kind) == v = "nil" \/ Kind(v) = kind \/ (kind = "ls" /\ Kind(v) = "la")

(* the entries that reach the struct: <<path, value>> *)
SectionOf(st, c) ==
  LET V == st.views[c.h]  kv == KV(st, c.h)  K == DOMAIN kv
      nm(x) == IF c.keep THEN x[1] ELSE x[2]
  IN {<<Split(nm(x), V.delim), kv[x[1]].v>> : x \in {y \in Named(V, K, c.p) : Accepts(kv[y[1]], c.flt)}}
(* the section can be decoded: no key is both a value and a section, every value fits its field *)
Decodable(st, c) ==
  LET m == SectionOf(st, c) IN
  /\ PrefixFree(m) /\ DistinctPaths(m)
  /\ \A x \in m : /\ FieldKind(x[1]) # "" => FitsField(x[2], FieldKind(x[1]))
                  /\ x[1] \notin Structs
                  /\ \A f \in Fields : ~ProperExt(x[1], f[1])
DoSection(st, c) ==
  LET V == st.views[c.h]  kv == KV(st, c.h)  K == DOMAIN kv
      m == SectionOf(st, c)
      val(f) == IF \E x \in m : x[1] = f[1] THEN AsField((CHOOSE x \in m : x[1] = f[1])[2], f[2]) ELSE ZeroOf(f[2])
  IN [s |-> st, r |-> IF c.b THEN [e |-> FALSE, m |-> {}]           \* no struct given
                      ELSE IF ~Exists(V, K, c.p) THEN [e |-> FALSE, m |-> {<<f[1], IF c.w THEN Before(f[2]) ELSE ZeroOf(f[2])>> : f \in Fields}]
                      ELSE IF c.w \/ ~Decodable(st, c) THEN [skip |-> TRUE]
                      ELSE [e |-> FALSE, m |-> {<<f[1], val(f)>> : f \in Fields}]]
=============================================================================
