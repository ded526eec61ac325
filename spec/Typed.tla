-------------------------------- MODULE Typed --------------------------------
(***************************************************************************)
(* Typed getters.  A typed value is kept as "type|class|text": "int8|num|5"*)
(* or "[]string|bool|true,false".  The class tells what the text (or every *)
(* element of it) denotes, and so which getters can convert it:            *)
(*   num a small natural number, n8 / n16 / n32 numbers which need more    *)
(*   than 7 / 16 / 32 bits, neg a small negative one, frac a binary        *)
(*   fraction, bool, dur a duration, time, word any other text.            *)
(* A conversion keeps the text.                                            *)
(***************************************************************************)
EXTENDS StoreCore

TyOf(v)   == Split(v, "|")[1]
ClsOf(v)  == Split(v, "|")[2]
TextOf(v) == Split(v, "|")[3]
IsTyped(v) == Len(Split(v, "|")) = 3

Ints  == {"Int", "Int8", "Int16", "Int32", "Int64"}
Uints == {"Uint", "Uint8", "Uint16", "Uint32", "Uint64"}
Floats == {"Float32", "Float64"}
Cplx  == {"Complex64", "Complex128"}
Nums(cls) ==
  CASE cls = "num"  -> Ints \cup Uints \cup Floats \cup Cplx
    [] cls = "n8"   -> (Ints \ {"Int8"}) \cup Uints \cup Floats \cup Cplx
    [] cls = "n16"  -> (Ints \ {"Int8", "Int16"}) \cup (Uints \ {"Uint8", "Uint16"}) \cup Floats \cup Cplx
    [] cls = "n32"  -> {"Int", "Int64", "Uint", "Uint64"} \cup Floats \cup Cplx
    [] cls = "neg"  -> Ints \cup Floats \cup Cplx
    [] cls = "frac" -> Floats \cup Cplx
    [] OTHER -> {}
Scalars(cls) ==
  CASE cls = "bool" -> {"Bool"} [] cls = "dur" -> {"Duration"} [] cls = "time" -> {"Time"} [] OTHER -> Nums(cls)
Slices(S) == {s \o "Slice" : s \in S}
Maps(S)   == {s \o "Map" : s \in S}

NumTypes == {"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64"}
(* the getters that convert a value *)
Getters(v) ==
  LET ty == TyOf(v)  cls == ClsOf(v)  S == Scalars(cls) IN
  CASE ty \in NumTypes \cup {"string", "bool", "duration"} -> {"String", "StringSlice"} \cup S \cup Slices(S)
    [] ty = "time" -> {"String", "Time"}
    [] ty = "complex128" -> S \cup Slices(Cplx)
    [] ty \in {"[]int", "[]int64", "[]string", "[]float64", "[]bool", "[]duration", "[]time"} -> {"StringSlice"} \cup Slices(S)
    [] ty = "[]any" -> {"StringSlice"} \cup Slices(S \ Cplx)
    [] ty = "[]complex128" -> Slices(Cplx)
    [] ty = "map[string]string" -> {"StringMap"} \cup Maps(IF cls = "bool" THEN {} ELSE S)
    [] ty = "map[string]any" -> {"StringMap"} \cup Maps(S)
    [] ty = "map[any]any" -> {"StringMap"} \cup Maps(S \ Cplx)
    [] ty \in {"map[string]int", "map[string]int64", "map[string]uint8", "map[string]float64", "map[string]complex128",
               "map[string]bool", "map[string]duration", "map[string]time"} -> Maps(S)
    [] OTHER -> {}

AllScalars == {"String", "Bool", "Duration", "Time"} \cup Ints \cup Uints \cup Floats \cup Cplx
AllGetters == AllScalars \cup Slices(AllScalars) \cup Maps(AllScalars)

Zero(ty) == IF EndsWith(ty, "Slice") \/ EndsWith(ty, "Map") THEN "" ELSE
            CASE ty = "String" -> "" [] ty = "Bool" -> "false" [] ty = "Duration" -> "0s" [] ty = "Time" -> "" [] OTHER -> "0"
Elem(ty) == IF EndsWith(ty, "Slice") THEN TrimSuf(ty, "Slice") ELSE TrimSuf(ty, "Map")
DfOf(s)  == CASE s = "String" -> <<"d1", "d2">> [] s = "Bool" -> <<"true", "false">> [] s = "Duration" -> <<"3s", "1m0s">>
              [] s = "Time" -> <<"2021-02-03T04:05:06Z", "2022-02-03T04:05:06Z">> [] OTHER -> <<"7", "8">>
Default(ty) == LET e == Elem(ty)  d == DfOf(e) IN
               IF EndsWith(ty, "Slice") THEN d[1] \o "," \o d[2]
               ELSE IF EndsWith(ty, "Map") THEN "z=" \o d[1] \o ";k=" \o d[1] \o ",l=" \o d[2] ELSE d[1] \o ";" \o d[2]
(* several defaults: the last one counts, except for a list *)
LastDefault(df) == LastOf(Split(df, ";"))

DoTSet(st, c) == LET a == DoSet(st, c) IN [s |-> a.s, r |-> R0]
(* b: a default is given *)
DoTyped(st, c) ==
  LET V == st.views[c.h]  kv == KV(st, c.h)  k == Resolve(V, DOMAIN kv, c.p)
      v == IF k \in DOMAIN kv THEN kv[k].v ELSE "nil"
  IN [s |-> st, r |->
       IF k = "" THEN [v |-> IF c.b THEN LastDefault(c.df) ELSE Zero(c.ty), e |-> TRUE]
       ELSE IF IsTyped(v) /\ c.ty \in Getters(v) THEN [v |-> TextOf(v), e |-> FALSE]
       ELSE [skip |-> TRUE]]       \* a section, or a conversion that is not defined
(* the content with the types of the values *)
DoTContent(st, c) ==
  LET kv == KV(st, c.h) IN [s |-> st, r |-> [m |-> {<<k, TyOf(kv[k].v), TextOf(kv[k].v)>> : k \in DOMAIN kv}]]
=============================================================================
