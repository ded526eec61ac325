-------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* Documents in files: their formats, the file and fs providers, loading   *)
(* them into a store and writing back.  files[f] is absent ("none"), not a *)
(* document of its format ("bad"), or a document: a set of <<path, value>>.*)
(***************************************************************************)
EXTENDS StoreCore, SequencesExt

Formats == <<"json", "yaml", "toml", "hjson", "nestext", "gob">>
(* the value that comes back from a document; I: int64 *)
Stored(cd, v) ==
  CASE cd \in {"json", "hjson"} /\ Kind(v) \in {"i", "I"} -> "f:" \o DropN(v, 2)
    [] cd = "toml" /\ Kind(v) = "i" -> "I:" \o DropN(v, 2)
    [] cd = "yaml" /\ Kind(v) = "I" -> "i:" \o DropN(v, 2)
    [] cd = "nestext" /\ Kind(v) \in {"i", "I", "b", "f"} -> "s:" \o DropN(v, 2)
    [] cd # "gob" /\ Kind(v) = "ls" -> "la:" \o DropN(v, 3)
    [] OTHER -> v
(* values a format can hold *)
Holds(cd, v) ==
  CASE cd = "nestext" -> Kind(v) \in {"s", "i", "I", "b", "f", "la"}
    [] cd \in {"toml", "gob"} -> Kind(v) \in {"s", "i", "I", "b", "f", "la", "ls"}
    [] OTHER -> Kind(v) \in {"s", "i", "I", "b", "f", "la", "ls"} \/ v = "nil"
Doc(cd, m) == [st |-> "doc", cd |-> cd, m |-> {<<x[1], Stored(cd, x[2])>> : x \in m}]
LeavesOf(lv) == {<<lv[i].s, lv[i].v>> : i \in DOMAIN lv}
File(st, f) == st.files[f]
PutFile(st, f, x) == [st EXCEPT !.files[f] = x]

DoFPut(st, c) == [s |-> PutFile(st, c.f, Doc(c.cd, LeavesOf(c.lv))), r |-> R0]
DoFBad(st, c) == [s |-> PutFile(st, c.f, [st |-> "bad", cd |-> c.cd, m |-> {}]), r |-> R0]
DoFDel(st, c) == [s |-> PutFile(st, c.f, [st |-> "none", cd |-> "", m |-> {}]), r |-> R0]

(* sp, fl: as for a load; b: the file may be written back; via: "file", "fs" or "plain" (no codec given: JSON) *)
DoFLoad(st, c) ==
  LET V  == st.views[c.h]
      V1 == IF c.sp = "" THEN V ELSE [V EXCEPT !.prefix = c.sp]
      V2 == IF c.fl = "" THEN V1 ELSE [V1 EXCEPT !.flat = (c.fl = "on")]
      F  == File(st, c.f)
      failed == F.st # "doc"
      L  == SetToSeq(F.m)
      a  == SetLeaves(Acc(st), V.tree, V2.prefix, V2.delim, [i \in DOMAIN L |-> [s |-> L[i][1], v |-> L[i][2], d |-> "", c |-> "", t |-> "nil"]], V2.flat, FALSE)
      s1 == IF failed THEN st ELSE a.s
  IN [s |-> [s1 EXCEPT !.ldrs = Append(@, [ok |-> ~failed, ref |-> IF c.sp = "" /\ c.fl = "" THEN c.h ELSE 0, view |-> V2, cd |-> c.cd, kind |-> c.via, by |-> c.h, f |-> c.f, wr |-> c.b])],
      r |-> [err |-> failed, wr |-> ~failed]]

(* as: the whole content to file f as cd, which may be written or not (b); else what was modified to the file it was loaded from *)
Target(st, c) == LET l == st.ldrs[c.l] IN
  IF c.as THEN [f |-> c.f, cd |-> c.cd, wr |-> c.b, kind |-> c.via] ELSE [f |-> l.f, cd |-> l.cd, wr |-> l.wr, kind |-> l.kind]
ToSave(st, c) ==
  LET V == LView(st, st.ldrs[c.l])
      kv == st.trees[V.tree].kv
  IN {<<Split(x[2], V.delim), kv[x[1]].v>> : x \in {y \in Named(V, DOMAIN kv, "") : c.as \/ kv[y[1]].m}}
CanSave(st, c) ==
  LET m == ToSave(st, c) T == Target(st, c) IN
  /\ PrefixFree(m) /\ DistinctPaths(m) /\ T.kind # "plain"
  /\ \A x \in m : Holds(T.cd, x[2])
DoFSave(st, c) ==
  LET m == ToSave(st, c)  T == Target(st, c)  can == T.wr /\ T.kind = "file" IN
  IF m = {} THEN [s |-> st, r |-> [err |-> FALSE]]
  ELSE [s |-> IF can THEN PutFile(st, T.f, Doc(T.cd, m)) ELSE st, r |-> [err |-> ~can]]

(* what is in a file, read without the code under test *)
DoFContent(st, c) == LET F == File(st, c.f) IN
  [s |-> st, r |-> IF F.st = "bad" THEN [st |-> "bad"] ELSE [st |-> F.st, m |-> F.m]]
(* a codec by itself: decoding a file, encoding a document *)
DoCDec(st, c) == LET F == File(st, c.f) IN [s |-> st, r |-> IF F.st = "doc" THEN [err |-> FALSE, m |-> F.m] ELSE [err |-> TRUE, m |-> {}]]
DoCEnc(st, c) == [s |-> st, r |-> [err |-> FALSE, m |-> Doc(c.cd, LeavesOf(c.lv)).m]]
=============================================================================
