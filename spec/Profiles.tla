------------------------------ MODULE Profiles -------------------------------
(***************************************************************************)
(* For each property: what to set up, which calls make the histories, and  *)
(* what to probe at the end.                                               *)
(*                                                                         *)
(* A pool is a number xy.  y chooses the keys: pools of keys that share    *)
(* characters in every way a radix tree cares about.  x chooses how a      *)
(* history starts: 0 empty, 1 all keys present, 2 all keys present, written*)
(* in the reverse order; 9 is for random histories, with all kinds of      *)
(* calls.                                                                  *)
(***************************************************************************)
EXTENDS Calls

Base(pool) == pool % 10
Start0(pool) == pool \div 10
Sim(pool) == Start0(pool) = 9

(* the delimiter of a pool *)
Delim(b) == CASE b = 5 -> "/" [] b = 6 -> "→" [] b = 7 -> ":" [] b = 8 -> "*" [] OTHER -> "."
Dl(pool) == Delim(Base(pool))

Keys(pool) ==
  LET b == Base(pool) IN
  CASE b = 1 -> <<"a", "ab", "a.b", "a.bc", "a.b.c", "b">>
    [] b = 2 -> <<"app.d", "app.de", "app.d.x", "ap", "apple.d", "app">>
    [] b = 3 -> <<"é.x", "è.x", "é", "éa.x", "日.本", "早.x", "𐃩.x">>
    [] b = 4 -> <<"s.0", "s.1", "s.10", "s.1.x", "s-1", "t.s.1">>
    [] b = 5 -> <<"a/b", "a/b.c", "a", "a/b/c", "a.b", "ab/c">>
    [] b = 6 -> <<"é→x", "é→x→y", "è→x", "é", "é.x", "éa→x">>
    [] b = 7 -> <<"a:b", "a:b.c", "a", "a:b:c", "a.b", "ab:c">>
    [] b = 8 -> <<"a*b", "a*b.c", "a", "a*b*c", "a.b", "ab*c">>
(* keys for looking up definitions in enclosing sections *)
UpKeys == <<"a.x", "a.b.x", "x", "a.b.c.x", "a.b.cx", "ab.x", "a.b.c.d.y">>
UpPaths == <<"a.x", "a.b.x", "a.b.c.x", "a.b.c.d.x", "a.bb.c.x", "ab.c.x", "x", "b.x", "c.d.x", "a.b.c.y",
             "a.b.c.d.e.y", "a.b.cx", "a.b.b.cx", "a.d.c", "a.d.b", "a.xx", "abb.x", "a.b.c.d">>

Few(pool) ==
  LET b == Base(pool) IN
  CASE b = 1 -> <<"a.b", "a.bc", "a.b.c">>
    [] b = 2 -> <<"app.d", "app.de", "apple.d">>
    [] b = 3 -> <<"é.x", "è.x", "é">>
    [] b = 4 -> <<"s.1", "s.10", "s.1.x">>
    [] OTHER -> SubSeq(Keys(pool), 1, 3)

Paths(pool) ==
  LET b == Base(pool) IN
  CASE b = 1 -> <<"a", "a.", "ab", "a.b", "a.b.", "a.bc", "a.b.c", "a.b.c.d", "a.c", "b", "b.a", "abc", "c">>
    [] b = 2 -> <<"a", "ap", "app", "app.", "app.d", "app.d.", "app.de", "app.d.x", "app.d.xy", "appl", "apple", "apple.d", "app.e", "ap.p">>
    [] b = 3 -> <<"é", "é.", "è", "é.x", "è.x", "éa", "éa.x", "日", "日.", "日.本", "日.木", "木", "ê.x", "早.x", "ǩ.x", "𐃩.x", "𐃩", "𐃨.x", "早">>
    [] b = 4 -> <<"s", "s.", "s.0", "s.1", "s.1.", "s.1.x", "s.10", "s.10.x", "s-1", "s-", "t", "t.s", "t.s.1", "s.2">>
    [] b = 5 -> <<"a", "a/", "a/b", "a/b.", "a/b.c", "a/b/", "a/b/c", "a.b", "a.", "ab", "ab/c", "a/c">>
    [] b = 6 -> <<"é", "é→", "é→x", "é→x→y", "è", "è→x", "é.x", "é.", "éa", "éa→x", "é↓x", "→">>
    [] b = 7 -> <<"a", "a:", "a:b", "a:b.", "a:b.c", "a:b:", "a:b:c", "a.b", "a.", "ab", "ab:c", "a:c">>
    [] b = 8 -> <<"a", "a*", "a*b", "a*b.", "a*b.c", "a*b*", "a*b*c", "a.b", "a.", "ab", "ab*c", "a*c">>
Segs(pool) ==
  LET b == Base(pool) IN
  CASE b \in {1, 2} -> {"a", "ab", "abc", "b", "ba", "app", "apple", "srv", "s", "0", "1", "10"}
    [] b = 3 -> {"é", "è", "éa", "日", "本", "早", "木", "日本", "x", "y-z", "A", "a_b", "a/b", "š", "a", "šb", "Ÿ"}
    [] b = 4 -> {"x", "xy", "xyz", "y"}
    [] OTHER -> {"a", "ab", "b", "b.c", "é", "è", "x-y", "x/y", "y:z"}

(* spaces, where a key is not reported by the name it was given *)
SpaceProps == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C12", "C14", "C18", "C19"}
SegsOf(P, pool) == Segs(pool) \cup (IF P \in SpaceProps /\ Base(pool) \in {2, 3} THEN {"s p", "s-p", " p"} ELSE {})
-----------------------------------------------------------------------------
(* typed values *)
TypedVals ==
  Each(<<"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "complex128", "string">>, LAMBDA t : t \o "|num|5")
  \o Each(<<"int", "uint8", "uint64", "int16", "float64", "string">>, LAMBDA t : t \o "|n8|200")
  \o Each(<<"int", "uint32", "int64", "float64", "string">>, LAMBDA t : t \o "|n16|70000")
  \o Each(<<"int", "uint64", "int64", "float64", "string">>, LAMBDA t : t \o "|n32|8589934592")
  \o Each(<<"int", "int8", "int64", "float32", "float64", "string">>, LAMBDA t : t \o "|neg|-5")
  \o Each(<<"int", "uint8", "float64", "string">>, LAMBDA t : t \o "|num|0")
  \o Each(<<"float32", "float64", "string">>, LAMBDA t : t \o "|frac|1.5")
  \o Each(<<"bool", "string">>, LAMBDA t : t \o "|bool|true") \o Each(<<"bool", "string">>, LAMBDA t : t \o "|bool|false")
  \o Each(<<"duration", "string">>, LAMBDA t : t \o "|dur|5s") \o Each(<<"duration", "string">>, LAMBDA t : t \o "|dur|1m30s")
  \o Each(<<"time", "string">>, LAMBDA t : t \o "|time|2020-02-03T04:05:06Z")
  \o <<"string|word|hello", "string|word|日本">>
TypedLists ==
  Each(<<"[]int", "[]int64", "[]string", "[]float64", "[]any", "[]complex128">>, LAMBDA t : t \o "|num|1,2,3")
  \o Each(<<"[]int", "[]string">>, LAMBDA t : t \o "|num|4") \o Each(<<"[]int", "[]int64", "[]string">>, LAMBDA t : t \o "|neg|-1,2")
  \o Each(<<"[]int", "[]int64", "[]string", "[]float64">>, LAMBDA t : t \o "|n16|70000,1") \o Each(<<"[]float64", "[]string">>, LAMBDA t : t \o "|frac|1.5,2.25")
  \o Each(<<"[]bool", "[]string">>, LAMBDA t : t \o "|bool|true,false") \o Each(<<"[]duration", "[]string">>, LAMBDA t : t \o "|dur|5s,1m0s")
  \o <<"[]time|time|2020-02-03T04:05:06Z,2021-02-03T04:05:06Z", "[]string|word|a,b">>
TypedMaps ==
  Each(<<"map[string]int", "map[string]int64", "map[string]uint8", "map[string]float64", "map[string]complex128", "map[string]string", "map[string]any", "map[any]any">>,
       LAMBDA t : t \o "|num|a=1,b=2")
  \o <<"map[string]bool|bool|a=true,b=false", "map[string]string|bool|a=true", "map[string]duration|dur|a=1s", "map[string]string|dur|a=1s,b=2m0s",
       "map[string]time|time|a=2020-02-03T04:05:06Z", "map[string]string|word|a=x,b=y", "map[string]int|n16|a=70000", "map[string]string|neg|a=-1", "map[string]int64|n32|a=8589934592">>
AllTyped == TypedVals \o TypedLists \o TypedMaps
GetterSeq == SetToSeq(AllGetters)

(* sizes *)
Numbers == <<"0", "1", "2", "10", "512", "1000", "65535", "1_000", "0x10", "0xff", "0X1C", "0700", "0o17", "0b101", "1.5", "2.25", "0.5", "10.125", "7">>
Blanks == <<"", " ", "  ">>
UnitSeq == <<"", "k", "K", "m", "M", "g", "G", "t", "T", "p", "P", "e", "E">>
SizeSufs == <<"", "B", "b", "iB", "ib">>
OddTexts == <<"", " ", ".", "K", "KiB", "-1", "-2K", "abc", "日本", "1日", "1é", "é1K", "1..5K", "1.5.5", "0x", "0xK", "K1", "1 000K", "++", "1KK", "1Kb b", "18446744073709551616", "99999999999999999999E",
              "1e5", "1e500.5", "iB", "B", "1.", ".5K", "NaN", "Inf.", "0xfe", "0xeB", "1Z", "1Y", "١K", "1.5Ké">>
SizeText(i, j, k, l, m) == Blanks[m] \o Numbers[i] \o Blanks[j] \o UnitSeq[k] \o SizeSufs[l]

(* routes *)
RouteKeys(pool) ==
  LET b == Base(pool) IN
  CASE b = 1 -> <<"/u/:id", "/u/me", "/u/:id/p", "/u/me/p/x", "/s/*f", "/s/a", "/u/:id/p/:q">>
    [] b = 2 -> <<"u.:id", "u.me", "u.:id.p", "u.me.p.x", "s.*f", "s.a", "u.:id.p.:q">>
    [] b = 3 -> <<"/é/:名", "/é/è", "/é/:名/本", "/é/è/本/x", "/日/*名", "/日/é", "/é/:名/本/*r">>
    [] OTHER -> <<"/a/:id/x", "/a/:id/xy", "/a/id", "/a/i", "/a/:id", "/a/*">>
RoutePaths(pool) ==
  LET b == Base(pool) IN
  CASE b = 1 -> <<"/u/me", "/u/m", "/u/mee", "/u/z", "/u/z/p", "/u/me/p", "/u/me/p/x", "/u/me/p/y", "/u/z/p/x", "/u/m/p/x/y", "/s/a", "/s/b", "/s/a/b", "/s/b/c/d", "/s", "/x", "/u", "/u/z/q", "/u/me/q", "/u/p">>
    [] b = 2 -> <<"u.me", "u.m", "u.mee", "u.z", "u.z.p", "u.me.p", "u.me.p.x", "u.me.p.y", "u.z.p.x", "u.m.p.x.y", "s.a", "s.b", "s.a.b", "s.b.c.d", "s", "x", "u", "u.z.q", "u.me.q", "u.p">>
    [] b = 3 -> <<"/é/è", "/é/é", "/é/ê", "/é/z/本", "/é/è/本", "/é/è/本/x", "/é/è/本/y", "/é/z/本/x/y", "/é/z/木", "/日/é", "/日/è/本", "/日/本", "/日", "/è/é", "/é">>
    [] OTHER -> <<"/a/1/x", "/a/1/xy", "/a/1/xyz", "/a/1/y", "/a/id", "/a/i", "/a/idx", "/a/x", "/a/id/x", "/a/i/xy", "/a/xy", "/a", "/a/id/x/y">>
(* random routes: literal segments and, at position i, the parameter ":pi" *)
RouteSegs(i) == {"a", "ab", "b", "é", ":p" \o ToString(i), ":p" \o ToString(i), "*w" \o ToString(i)}
RECURSIVE DrawRoute(_, _, _)
DrawRoute(i, n, d) ==
  LET s == RandomElement(IF i = 1 THEN {"a", "ab", "b"} ELSE RouteSegs(i)) IN
  IF IsWild(s) \/ i >= n THEN s ELSE s \o d \o DrawRoute(i + 1, n, d)
DrawPlain(n, d) == JoinAll([i \in 1..n |-> RandomElement({"a", "ab", "b", "é", "c", "p2"})], d)

(* environment variables and flags *)
EnvSets ==
  << << <<"APP_A", "s:1">>, <<"APP_B_C", "s:x=y">>, <<"APPX", "s:2">>, <<"OTHER_A", "s:3">>, <<"APP_D__E", "s:4">> >>,
     << <<"APP_A_B", "s:">>, <<"XAPP_A", "s:5">>, <<"AP", "s:6">>, <<"A_B_C_D", "s: a b">>, <<"_X_Y", "s:u">> >>,
     << <<"app_low", "s:7">>, <<"App_Mix_Ed", "s:8">>, <<"APP_UP", "s:9">>, <<"APP_É_X", "s:é">>, <<"B__C_", "s:10">> >>,
     << <<"APP_APP_A", "s:11">>, <<"APP_", "s:12">>, <<"APP", "s:13">>, <<"A", "s:14">> >> >>
FlagSets ==
  << << <<"app_a", "s:1", "d">>, <<"app_b_c", "i:5", "3">>, <<"appx", "b:true", "false">>, <<"other", "s:", "">>, <<"app_d__e", "i:0", "0">> >>,
     << <<"APP_A", "s:2", "d">>, <<"App_B", "b:false", "true">>, <<"x_y_z", "i:-1", "1">>, <<"_p_q", "s:q", "q">> >>,
     << <<"app_", "s:3", "d">>, <<"app", "i:2", "1">>, <<"app_app_b", "s:é", "è">>, <<"é_x", "s:u", "u">> >> >>
ProvOpts ==
  LET f(i) == Opts(<<"", "app_", "APP_">>[(i % 3) + 1], <<"", "app_", "APP_">>[((i \div 3) % 3) + 1], (i \div 9) % 2 = 0, (i \div 18) % 2 = 1, (i \div 36) % 2 = 1, <<"", "st.p">>[((i \div 72) % 2) + 1])
  IN [i \in 1..144 |-> f(i - 1)]
NameSegs == {"APP", "app", "A", "b", "", "C", "x", "É", "env"}
DrawName == JoinU([i \in 1..RandomElement(1..4) |-> RandomElement(NameSegs)])

(* keys of sections that fit the struct of Sections, and values for them *)
FieldSeq == SetToSeq({x[1] : x \in Fields})
SecKeys(pool) ==
  LET b == Base(pool) IN
  CASE b = 1 -> <<"a.name", "a.names", "a.port", "a.sub.name", "a.sub.deep.level", "ab.name">>
    [] b = 2 -> <<"name", "names", "n1", "sub.port", "subs.port", "on">>
    [] b = 3 -> <<"é.tags", "é.rate", "é.sub.name", "é.subs.deep.name", "é.x", "è.on">>
    [] b = 4 -> <<"s.name", "s.sub.name", "s.subs.name", "s.sub.deep.name", "s.1.name", "s.other.name">>
    [] b = 5 -> <<"a/name", "a/sub/name", "a/sub/port", "a/b/name", "a/subs/deep/level", "a/tags">>
    [] OTHER -> <<"é→name", "é→sub→name", "é→subs→deep→name", "é→b→port", "è→port", "é→rate">>
SecPaths(pool) ==
  LET b == Base(pool) IN
  CASE b = 1 -> <<"", "a", "ab", "a.sub", "a.sub.deep", "a.name", "b", "a.", "a.na">>
    [] b = 2 -> <<"", ".", "sub", "subs", "name", "su", "zz">>
    [] b = 3 -> <<"", "é", "è", "é.sub", "é.subs", "é.x", "ê">>
    [] b = 4 -> <<"", "s", "s.sub", "s.subs", "s.1", "s.other", "s.2">>
    [] b = 5 -> <<"", "a", "a/sub", "a/b", "a/subs", "a/", "a.b">>
    [] OTHER -> <<"", "é", "è", "é→sub", "é→b", "é→", "e">>
SecVals(last, n) ==
  CASE last \in {"name", "names", "n1"} -> <<"s:v" \o ToString(n), "s:", "s:é b", "nil", "s:12">>
    [] last \in {"port", "level"} -> <<VI(n), "i:0", "i:-7", "nil", "i:2147483648">>
    [] last = "on" -> <<"b:true", "b:false", "nil">>
    [] last = "rate" -> <<"f:1.5", "f:0", "f:-2.25", "nil">>
    [] last = "tags" -> <<"ls:a,b", "la:x,y", "ls:q", "nil">>
    [] OTHER -> <<VI(n), VS(n), "nil", "ls:a,b", "mi:k=1", "b:true">>
SecVal(k, d, n) == LET v == SecVals(LastOf(Split(k, d)), n) IN v[1 + (n % Len(v))]
SecDoc(n) ==
  << <<Lf(<<"name">>, VS(n)), Lf(<<"sub", "port">>, VI(n)), Lf(<<"sub", "deep", "name">>, "s:deep")>>,
     <<Lf(<<"tags">>, "la:x,y"), Lf(<<"subs", "name">>, VS(n)), Lf(<<"x">>, VI(n)), Lf(<<"on">>, "b:true")>>,
     <<Lf(<<"sub", "name">>, VS(n)), Lf(<<"other", "name">>, "s:o"), Lf(<<"rate">>, "f:1.5"), Lf(<<"n1">>, "s:n")>> >>
DrawSecKey(d) ==
  LET pre == RandomElement({<<>>, <<"a">>, <<"a">>, <<"ab">>, <<"é">>, <<"a", "b">>})
      x == RandomElement({1, 2, 3, 4, 5})
  IN JoinAll(pre \o (IF x = 1 THEN <<RandomElement({"x", "other", "nam", "sub2", "1"}), RandomElement({"name", "port", "y"})>> ELSE RandomElement({f[1] : f \in Fields})), d)
(* documents in files; a pool below 90 is about one format *)
FmtOf(pool) == Formats[Base(pool)]
FTexts == <<"s:true", "s:12", "s: sp ", "s:a: b", "s:# x", "s:q\"x'", "s:two\nlines", "s:é日", "s:", "s:null", "s:1.5", "s:[x", "s:{y", "s:- z", "s:~", "s:> a", "s:x # y", "s:\t", "s:\\", "s:0x10", "s:plain">>
FVals == FTexts \o <<"i:0", "i:5", "i:-3", "i:65536", "b:true", "b:false", "f:1.5", "f:-2.25", "la:x,y", "la:p", "ls:a,b", "nil">>
FHold(cd) == SelectSeq(FVals, LAMBDA v : Holds(cd, v))
FVal(cd, n) == FHold(cd)[1 + (n % Len(FHold(cd)))]
FDocs(cd, n) ==
  << <<Lf(<<"b">>, FVal(cd, 3 * n)), Lf(<<"a", "c">>, FVal(cd, 3 * n + 7))>>,
     <<Lf(<<"a", "b", "c">>, FVal(cd, 3 * n + 1)), Lf(<<"ab">>, FVal(cd, 3 * n + 2)), Lf(<<"l">>, "la:x,y")>>,
     <<Lf(<<"é", "日">>, FVal(cd, 5 * n)), Lf(<<"k">>, "s:x"), Lf(<<"a", "x-y", "z_1">>, FVal(cd, 7 * n + 3))>> >>
FLoads(h, f, cd, sp) ==
  <<CFLoad(h, f, sp, cd, "file", TRUE), CFLoad(h, f, sp, cd, "file", FALSE), [CFLoad(h, f, sp, cd, "file", TRUE) EXCEPT !.w = TRUE], CFLoad(h, f, sp, cd, "fs", FALSE), [CFLoad(h, f, sp, cd, "fs", FALSE) EXCEPT !.w = TRUE]>>
  \o (IF cd = "json" THEN <<CFLoad(h, f, sp, cd, "plain", FALSE)>> ELSE <<>>)
FileCd(st, f, pool) == IF File(st, f).cd # "" THEN File(st, f).cd ELSE IF Sim(pool) THEN RandomElement(Image(Formats)) ELSE FmtOf(pool)
FewProps == {"C05", "C06", "C07", "C08", "C11", "C12", "C18", "C19", "C20", "C17", "C10", "C09"}
KeysOf(P, pool) == IF P = "C23" THEN SecKeys(pool) ELSE IF P = "C13" THEN RouteKeys(pool) ELSE IF P \in {"C16", "C22"} THEN Few(pool) ELSE IF P = "C14" THEN UpKeys ELSE IF P \in FewProps THEN Few(pool) ELSE Keys(pool)
PathsOf(P, pool) == IF P = "C23" THEN SecPaths(pool) ELSE IF P = "C13" THEN RoutePaths(pool) ELSE IF P = "C14" THEN UpPaths ELSE Paths(pool)

-----------------------------------------------------------------------------
(* helpers *)
Trim(K, n) == SubSeq(K, 1, IF Len(K) < n THEN Len(K) ELSE n)
RDl(pool) == IF Base(pool) = 2 THEN "." ELSE "/"
RouteRoot(pool) == LET b == Base(pool) IN IF Sim(pool) THEN "a" ELSE CASE b = 1 -> "/u" [] b = 2 -> "u" [] b = 3 -> "/é" [] OTHER -> "/a"

(* a key as seen from a view *)
Rel(V, k) == IF V.prefix = "" THEN k ELSE TrimPre(k, V.prefix \o V.delim)
Hs(st) == [i \in 1..Len(st.views) |-> i]
EachH(st, F(_)) == EachCat(Hs(st), F)
(* F(h, k) for every handle and every key as seen from it *)
OnAll(st, K, F(_, _)) == EachH(st, LAMBDA h : Each(K, LAMBDA k : F(h, Rel(st.views[h], k))))
NHs(st) == [i \in 1..Len(st.nh) |-> i]
DL(st) == st.views[1].delim
Seg1(st, k) == Split(k, DL(st))[1]
Heads(st, K) == Each(K, LAMBDA k : Seg1(st, k))

(* all ways of writing a key *)
Writes(h, k, n) ==
  <<CSet(h, k, VI(n)), CSet(h, k, VS(n)), CSet(h, k, "nil"), CIns(h, k, VI(n)), CSetEx(h, k, VS(n), ""),
    CSetNode(h, k, VI(n), "nil", 0, "", ""), CSetEmpty(h, k), CUpd(h, k, "data")>>
Write(h, k, n) == Writes(h, k, n)[(n % 8) + 1]

Long(c, n) == JoinAll([i \in 1..n |-> c], "")
(* views with long prefixes *)
LongViews(pool) == IF Sim(pool) /\ Base(pool) = 4 THEN <<CPreR(1, <<Long("x", 120)>>), CPre(2, <<Long("é", 70), "y">>)>> ELSE <<>>
Populate(pool) ==
  LET K == Keys(pool)
      ks == IF Start0(pool) \in {2, 4} THEN Reverse(K) ELSE K
  IN IF Start0(pool) = 0 \/ Sim(pool) THEN <<>>
     ELSE [i \in DOMAIN ks |-> CSetNode(1, ks[i], VI(100 + i), "s:t" \o ToString(i), 2, "d" \o ToString(i), "c" \o ToString(i))]
PopulateUp(pool) ==
  IF Start0(pool) = 0 \/ Sim(pool) THEN <<>> ELSE [i \in DOMAIN UpKeys |-> CSet(1, UpKeys[i], VI(100 + i))]

StoreOf(pool) == CNew(IF pool % 2 = 1 THEN "store" ELSE "trie", Dl(pool), FALSE, FALSE, "")

(* values of all kinds *)
OddVals(n) == <<VI(n), VS(n), "nil", "s:", "i:0", "b:false", "b:true", "f:1.5", "f:0", "by:ab", "le:", "st:x", "ps:x", "ls:a,b", "mi:k=1", "la:x,y", "i:-1", "du:5s", "lm:p,q", "ms:a,b", "li:1,2", "l2:a,b", "mx:k=x", "m2:x", "ln:p,q">>
OddVal(n) == OddVals(n)[1 + (n % Len(OddVals(n)))]

(* nested maps to merge or load; d: to tell them apart by their values *)
Docs(n) ==
  <<  <<Lf(<<"b">>, VI(n)), Lf(<<"c">>, VS(n))>>,
      <<Lf(<<"b", "c">>, VI(n)), Lf(<<"bc">>, VS(n)), Lf(<<"b", "d", "e">>, VI(n))>>,
      <<Lf(<<"a", "b">>, VI(n)), Lf(<<"l">>, "la:x,y")>>,
      <<Lf(<<"m">>, "lm:p,q"), Lf(<<"a", "l">>, "ls:a,b"), Lf(<<"a", "lz">>, "la:z")>>,
      <<Lf(<<"é", "è", "x">>, VI(n)), Lf(<<"é", "éa">>, "lx:p"), Lf(<<"y">>, "ln:x,y")>>,
      <<Lf(<<"app", "d">>, VS(n)), Lf(<<"app", "de", "f", "g", "h">>, VI(n)), Lf(<<"ap">>, "b:true"), Lf(<<"z">>, "nil")>>,
      <<Lf(<<"b">>, "lx:p,q"), Lf(<<"c", "d">>, "ly:p,q"), Lf(<<"w">>, "lw:p,q"), Lf(<<"c", "e">>, "ms:a,b")>>,
      <<Lf(<<"b">>, "la:a,b,c,d,e,f,g,h,i,j,k,l"), Lf(<<"c">>, "lm:a,b,c,d,e,f,g,h,i,j,k"), Lf(<<"d">>, "ls:a,b,c,d,e,f,g,h,i,j,k,l"), Lf(<<"e">>, "lx:a,b,c,d,e,f,g,h,i,j,k")>>,
      \* keys that are no strings, if the maps are keyed by any
      <<Lf(<<"b", "-1">>, VI(n)), Lf(<<"b", "1">>, VS(n)), Lf(<<"b", "true", "0">>, VI(n)), Lf(<<"b", "10", "x">>, VS(n)), Lf(<<"b", "300">>, VI(n)), Lf(<<"b", "-1000">>, VI(n))>> >>
MetaDoc(n) == <<LfM(<<"b">>, VI(n), "db", "cb", "s:tb"), LfM(<<"k">>, VS(n), "dk", "", "nil"), LfM(<<"t">>, VI(n), "", "", "s:tt"), Lf(<<"e", "f">>, VI(n)),
                LfM(<<"g", "h">>, VI(n), "dg", "cg", "s:tg"), LfM(<<"g", "i", "j">>, VS(n), "", "cj", "nil")>>
(* maps with dotted and nested keys for the same sections *)
MapDocs(n) == Docs(n) \o
  << <<Lf(<<"a.b", "c">>, VI(n)), Lf(<<"a", "b.d">>, VS(n)), Lf(<<"a", "b", "e">>, VI(n)), Lf(<<"a.b.f">>, VS(n))>>,
     <<Lf(<<"x.y", "z.w", "v">>, VI(n)), Lf(<<"x", "y.z", "u">>, VS(n)), Lf(<<"é.è", "日">>, VI(n)), Lf(<<"é", "è", "本">>, "ls:a,b")>>,
     <<Lf(<<"p", "q">>, "nil"), Lf(<<"p.r">>, "b:false"), Lf(<<"p.s", "t">>, "mi:k=1"), Lf(<<"o">>, "la:x,y")>> >>
AnyMaps(c) == [c EXCEPT !.via = "any"]
(* text-only documents, for the round trip through real codecs *)
TextDoc(n) == <<Lf(<<"b">>, VS(n)), Lf(<<"a", "b">>, VS(n)), Lf(<<"a", "c", "d">>, "s:x")>>

-----------------------------------------------------------------------------
(* everything a loader would save is text, under keys a document can hold *)
TextOnly(st, l) == \A k \in DOMAIN st.trees[LView(st, st.ldrs[l]).tree].kv :
                      LET v == st.trees[LView(st, st.ldrs[l]).tree].kv[k].v IN StartsWith(v, "s:") /\ Len(v) > 2
(* restrictions that keep the histories of a profile small or meaningful *)
(* no empty segments, whatever delimiter is in use *)
WFKey(k, d) == \A i \in DOMAIN Split(k, d) : Split(k, d)[i] # ""
WFState(st) == \A h \in DOMAIN st.views : LET V == st.views[h] IN
                  /\ V.prefix = "" \/ WFKey(V.prefix, V.delim)
                  /\ \A k \in DOMAIN st.trees[V.tree].kv : WFKey(k, V.delim)
(* merging into a trie: maps keyed by strings only *)
AnyMapsOK(st, c) == c.op = "merge" /\ ~IsStore(st, st.views[c.h].tree) =>
                       c.via # "any" /\ \A i \in DOMAIN c.lv : Kind(c.lv[i].v) \notin {"ly", "lw"}
Count(st, h) == Cardinality({i \in DOMAIN st.views : st.views[i].tree = h})
(* what may only be decided from the outcome *)
Sound(P, st, c) ==
  /\ P = "C15" => WFState(Exec(st, c).s)
  \* by what name a handler is told of the key that is the prefix of its store, nothing says
  /\ P = "C11" => LET r == Exec(st, c).r IN "ev" \in DOMAIN r => \A i \in DOMAIN r.ev : r.ev[i][2] # ""
Wanted(P, pool, st, c) ==
  /\ (P = "C13" /\ c.op = "set") => \A k \in DOMAIN KV(st, c.h) : Compatible(k, Full(st.views[c.h], c.p), st.views[c.h].delim)
  /\ (P = "C13" /\ c.op = "remove") => Full(st.views[c.h], c.p) \in DOMAIN KV(st, c.h)
  /\ c.op = "prov" => SupDistinct(c) /\ (c.b => \A i \in DOMAIN SupKeys(c) : WFKey(SupKeys(c)[i], "."))
  /\ Has3(c, "h") => Len(st.views[c.h].prefix) + Len(c.p) <= (IF P \in {"C01", "C05", "C07"} /\ Base(pool) = 4 THEN 300 ELSE 60)
  /\ c.op = "setprefix" => \A i \in DOMAIN st.ldrs : st.ldrs[i].by # c.h
  /\ c.op \in {"withprefix", "withprefixr", "setprefix"} => Len(st.views[c.h].prefix) + Len(JoinAll(c.ps, ".")) <= (IF P \in {"C01", "C05", "C07"} /\ Base(pool) = 4 THEN 250 ELSE 40)
  /\ c.op \in {"withprefix", "withprefixr", "mode"} => Len(st.views) < (IF Sim(pool) THEN 6 ELSE 5)
  /\ c.op = "clone" => Len(st.trees) < (IF Sim(pool) THEN 4 ELSE 2)
  /\ c.op \in {"load", "fload"} => Len(st.ldrs) < (IF Sim(pool) THEN 6 ELSE 3)
  /\ c.op \in {"ttl", "ttlfast"} => Cardinality(st.jobs) < 4
  /\ (Has3(c, "keep") /\ c.op \notin {"getm"}) => (c.keep => Len(st.nh) < 5)
  /\ c.op = "handle" => Len(st.nh) < 5
  /\ (c.op = "save" /\ ~c.as) => st.ldrs[c.l].cd = "rec"
  /\ AnyMapsOK(st, c)
  /\ (c.op = "roundtrip" /\ ~c.as) => st.ldrs[c.l].cd \notin {"", "rec"}
  /\ c.op = "roundtrip" => TextOnly(st, c.l)

Setup(P, pool) ==
  CASE P \in {"C01", "C02", "C03", "C04", "C07", "C18", "C19"} ->
         <<StoreOf(pool)>> \o Populate(pool) \o
         (IF P \in {"C01", "C07"} THEN LongViews(pool) ELSE <<>>) \o
         (IF P = "C04" THEN <<CPre(1, <<Seg1([views |-> <<[View0 EXCEPT !.delim = Dl(pool)]>>], Keys(pool)[1])>>)>> ELSE <<>>)
    [] P = "C05" -> <<StoreOf(pool)>> \o Populate(pool) \o
         (IF Sim(pool) THEN LongViews(pool) ELSE <<CPre(1, <<Split(Keys(pool)[1], Dl(pool))[1]>>), CPre(2, <<"b">>)>>)
    [] P = "C06" -> <<[StoreOf(pool) EXCEPT !.flat = Base(pool) = 3, !.watch = Base(pool) = 1]>> \o Populate(pool)
    [] P = "C08" -> <<CNew("store", Dl(pool), FALSE, FALSE, "")>> \o Populate(pool)
    [] P = "C09" -> <<CNew(IF Base(pool) = 2 THEN "trie" ELSE "store", Dl(pool), Base(pool) \in {3, 4, 5}, FALSE, "")>>
                    \o (IF Base(pool) \in {4, 6} THEN <<CPre(1, <<"a">>)>> ELSE <<>>)
    [] P = "C10" -> <<CNew("store", Dl(pool), FALSE, FALSE, "")>> \o
         (IF Sim(pool) THEN <<>> ELSE
          IF Base(pool) = 1 THEN <<[CLoad(1, "", "once", Docs(50)[2]) EXCEPT !.cd = "rec"]>>
          ELSE IF Base(pool) = 2 THEN <<[CLoad(1, "a", "writer", Docs(50)[2]) EXCEPT !.cd = "rec"]>>
          ELSE IF Base(pool) = 3 THEN <<CPre(1, <<"é">>), [CLoad(2, "", "once", Docs(50)[1]) EXCEPT !.cd = "rec"]>>
          ELSE <<[CLoad(1, "s.t", "once", Docs(50)[1]) EXCEPT !.cd = "rec"]>>)
    [] P = "C11" -> <<CNew("store", Dl(pool), Base(pool) = 4, Base(pool) = 3, IF Base(pool) = 2 THEN "app" ELSE "")>>
                    \o (IF Sim(pool) THEN <<>> ELSE <<CPre(1, <<Split(Keys(pool)[1], Dl(pool))[1]>>)>>)
                    \o Populate(pool)
    [] P = "C12" -> <<StoreOf(pool), CPre(1, <<Split(Few(pool)[1], Dl(pool))[1]>>)>> \o
                    (IF Sim(pool) THEN <<>> ELSE Each(Few(pool), LAMBDA k : CSetNode(1, k, "i:7", "s:t", 0, "", "")))
    [] P = "C14" -> <<StoreOf(pool), CMode(1, "u"), CMode(2, "n"), CPre(2, <<"a", "b">>)>> \o PopulateUp(pool)
    [] P = "C15" -> <<CNew("store", Dl(pool), TRUE, FALSE, ""), CPre(1, <<"a">>)>> \o Populate(pool)
    [] P = "C17" -> <<CNew("store", Dl(pool), FALSE, Base(pool) # 4, ""),
                      [CLoad(1, IF Base(pool) = 2 THEN "app" ELSE "", IF Base(pool) = 3 THEN "once" ELSE IF Base(pool) = 1 THEN "map" ELSE "stream",
                             <<Lf(<<"k">>, "s:k")>>) EXCEPT !.w = TRUE, !.cd = IF Base(pool) = 3 THEN "rec" ELSE ""]>>
    [] P = "C20" -> <<CNew("store", Dl(pool), FALSE, Base(pool) = 2, IF Base(pool) = 4 THEN "pre" ELSE "")>>
    [] P = "C13" -> <<CNew(IF Base(pool) \in {1, 4} THEN "trie" ELSE "store", RDl(pool), FALSE, FALSE, ""), CPre(1, <<RouteRoot(pool)>>)>>
                    \o (IF Start0(pool) = 1 THEN Each(Trim(RouteKeys(pool), 5), LAMBDA k : CSet(1, k, "s:" \o k)) ELSE <<>>)
    [] P \in {"C16", "C22"} -> <<StoreOf(pool), CPre(1, <<Split(Few(pool)[1], Dl(pool))[1]>>)>>
    [] P = "C23" -> <<StoreOf(pool), CPre(1, <<Split(SecKeys(pool)[1], Dl(pool))[1]>>)>>
                    \o (IF Start0(pool) = 1 THEN [i \in DOMAIN SecKeys(pool) |-> CSet(1, SecKeys(pool)[i], SecVal(SecKeys(pool)[i], Dl(pool), i - i))] ELSE <<>>)
    [] P = "C24" -> <<CNew("store", ".", Base(pool) = 3, FALSE, "")>>
                    \o (IF Start0(pool) = 2 THEN <<CFPut(1, FmtOf(pool), FDocs(FmtOf(pool), 1)[2], 0)>> ELSE <<>>)
    [] P = "C21" -> <<CNew("store", ".", Base(pool) = 4, FALSE, "")>> \o (IF Base(pool) = 2 THEN <<CPre(1, <<"v">>)>> ELSE <<>>)
    [] OTHER -> <<NewStore>>

-----------------------------------------------------------------------------
(* the calls histories are made of; n is the number of the call *)
RemovePaths(K, Q, st) == Each(K, LAMBDA k : CRem(1, k))

Loads(h, n, all) ==
  <<CLoad(h, "", "map", Docs(n)[1]), CLoad(h, "a", "once", Docs(n)[1])>> \o
  (IF ~all THEN <<>> ELSE
   Cat([i \in DOMAIN Docs(n) |-> <<CLoad(h, "", "map", Docs(n)[i]), CLoad(h, "é", "once", Docs(n)[i]), CLoad(h, "", "stream", Docs(n)[i]),
                         [CLoad(h, "a", "map", Docs(n)[i]) EXCEPT !.fl = "on"], AnyMaps(CLoad(h, "app", "map", Docs(n)[i])),
                         [CLoad(h, "", "map", Docs(n)[i]) EXCEPT !.fl = "off"], CLoad(h, "", "maps", Docs(n)[i]), [CLoad(h, "a", "maps", Docs(n)[i]) EXCEPT !.via = <<"slash", "slashopt", "nodl">>[1 + ((i + n) % 3)]]>>])
   \o <<CLoad(h, "", "map", MetaDoc(n)), CLoad(h, "a", "map", MetaDoc(n))>>)

Failing(h, n) ==
  <<[CLoad(h, "", "map", Docs(n)[1]) EXCEPT !.fail = "read"], [CLoad(h, "a", "once", Docs(n)[1]) EXCEPT !.fail = "codec"],
    [CLoad(h, "", "once", Docs(n)[1]) EXCEPT !.fail = "bytes"], [CLoad(h, "", "once", Docs(n)[1]) EXCEPT !.fail = "read"],
    [CLoad(h, "", "stream", Docs(n)[1]) EXCEPT !.fail = "read"],
    [CLoad(h, "", "map", Docs(n)[1]) EXCEPT !.fail = "read+"], [CLoad(h, "a", "once", Docs(n)[1]) EXCEPT !.fail = "bytes+"],
    [CLoad(h, "", "once", Docs(n)[1]) EXCEPT !.fail = "codec+"], [CLoad(h, "a", "once", Docs(n)[1]) EXCEPT !.fail = "read+"],
    [CLoad(h, "", "map", <<>>) EXCEPT !.fail = "noprov"], [CLoad(h, "", "bare", <<>>) EXCEPT !.fail = "unsupported"]>>

Announcements(src, K, n) ==
  EachCat(K, LAMBDA k : <<CAnn(src, "create", << <<k, VI(n)>> >>), CAnn(src, "write", << <<k, VS(n)>> >>), CAnn(src, "remove", << <<k, "nil">> >>)>>)
  \o (IF Len(K) > 1 THEN <<CAnn(src, "create+write", << <<K[1], VI(n)>>, <<K[2], VS(n)>> >>), CAnn(src, "remove", << <<K[1], "nil">>, <<K[2], "nil">> >>),
                           CAnn(src, "write", << <<K[2], VI(n)>>, <<K[1], VS(n)>> >>), CAnn(src, IF n % 2 = 0 THEN "write" ELSE "create", << <<K[1], "nil">>, <<K[2], OddVal(n)>>, <<K[1], VI(n)>> >>),
                           CAnn(src, "remove", << <<K[2], VI(n)>>, <<"absent", "nil">>, <<K[1], "nil">> >>)>> ELSE <<>>)
  \o <<CAnn(src, "rename", << <<K[1], VI(n)>> >>), CAnn(src, "chmod", << <<K[1], VI(n)>> >>), CAnn(src, "remove+chmod", << <<K[1], "nil">> >>), CAnn(src, "remove+rename", << <<LastOf(K), "nil">> >>), CAnn(src, "write+chmod", << <<K[1], VI(n)>> >>),
       CAnn(src, "create+rename", << <<LastOf(K), VS(n)>> >>), CAnn(src, "create+write+rename+chmod", << <<K[1], VS(n)>> >>), CAnn(src, "rename+chmod", << <<K[1], VI(n)>> >>),
       CAnn(src, "error", << <<K[1], VI(n)>> >>), CAnn(src, "other", << <<K[1], VI(n)>> >>)>>

MetaCalls(h, k, n) == <<CCom(h, k, "d" \o ToString(n), "c" \o ToString(n)), CTag(h, k, VI(n)),
                        CSetNode(h, k, VI(n), VS(n), 2, "D" \o ToString(n), "C" \o ToString(n))>>
(* emptying, and everything else that can be given *)
MoreMeta(h, k, n) == <<CCom(h, k, "", ""), CCom(h, k, "d" \o ToString(n), ""), CCom(h, k, "", "c" \o ToString(n)), CTag(h, k, "nil"), CTag(h, k, VS(n)),
                       CSetNode(h, k, VS(n), "nil", 3, "D" \o ToString(n), "C" \o ToString(n)), CSetNode(h, k, VI(n), VS(n), 3, "", ""), CSetNode(h, k, "nil", VI(n), 1, "D" \o ToString(n), ""),
                       CSetNode(h, k, VI(n), "nil", 2, "", ""), CSetNode(h, k, VI(n), "nil", 0, "", "")>>

ViewCalls(st, K, sim) ==
  IF ~sim THEN <<>> ELSE
  EachH(st, LAMBDA h : EachCat(K, LAMBDA k : LET s == Split(k, DL(st)) IN
     <<CPre(h, <<s[1]>>), CPreR(h, s), CPre(h, SubSeq(s, 1, (Len(s) + 1) \div 2))>>
     \o (IF h > 1 /\ st.views[h].tree = 1 THEN <<CSetPre(h, <<s[1]>>), CSetPre(h, s)>> ELSE <<>>))
     \o <<CPreR(h, <<"">>), CPreR(h, <<"", Split(K[1], DL(st))[1]>>), CPre(h, <<>>)>>
     \o (IF h > 1 /\ st.views[h].tree = 1 THEN <<CSetPre(h, <<>>)>> ELSE <<>>))

(* values of many kinds *)
Handles(st, k) == <<CHandle(1, k, "locate"), CHandle(1, k, "walk"), CSetK(1, k, VI(60)), CSetExK(1, k, VI(61), ""), CGetExK(1, k, ""), CUpdK(1, k, ""),
                    CSetNodeK(1, k, VI(62), "nil", 0, "", "")>>
OnHandle(i, n) == <<CNData(i, VI(n)), CNCom(i, "hd" \o ToString(n), "hc"), CNTag(i, VS(n)), CNEmpty(i), CNMod(i, TRUE), CNMod(i, FALSE), CNToggle(i), CNReset(i)>>
MoreOnHandle(i, n) == <<CNData(i, "nil"), CNData(i, OddVal(n)), CNCom(i, "", "hc" \o ToString(n)), CNCom(i, "hd" \o ToString(n), ""), CNCom(i, "", ""), CNTag(i, "nil")>>

EnvOf(src) == IF src = "env" THEN EnvSets ELSE FlagSets
(* random sizes *)
RECURSIVE DrawDigits(_, _)
DrawDigits(n, S) == IF n = 0 THEN "" ELSE RandomElement(S) \o DrawDigits(n - 1, S)
Decs == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DrawNumber ==
  LET r == RandomElement(1..6) IN
  CASE r \in {1, 2} -> RandomElement(Decs \ {"0"}) \o DrawDigits(RandomElement(0..8), Decs)
    [] r = 3 -> "0x" \o DrawDigits(RandomElement(1..6), Decs \cup {"a", "c", "d", "f", "A", "F", "e", "b"})
    [] r = 4 -> "0" \o DrawDigits(RandomElement(1..6), {"0", "1", "5", "7"})
    [] r = 5 -> "0b" \o DrawDigits(RandomElement(1..8), {"0", "1"})
    [] OTHER -> DrawDigits(RandomElement(1..3), Decs \ {"0"}) \o "." \o RandomElement({"5", "25", "75", "125", "0", "50"})
DrawSize == RandomElement({"", "", " "}) \o DrawNumber \o RandomElement({"", "", " "}) \o RandomElement(Image(UnitSeq)) \o RandomElement(Image(SizeSufs)) \o RandomElement({"", "", " "})
DrawOdd == JoinAll([i \in 1..RandomElement(1..6) |-> RandomElement({"1", "0", "x", "K", "i", "B", "b", ".", " ", "é", "日", "-", "e", "_", "5"})], RandomElement({"", "", "."}))
(* random environments *)
DrawEnv(src) == LET N == TLCEval({DrawName : i \in 1..6} \ {""})
                    q == SetToSeq({x \in N : x # "" /\ ~StartsWith(x, "-")})
                IN [i \in DOMAIN q |-> <<q[i], <<"s:", "s:v", "s:a=b", "s:é">>[(i % 4) + 1], "dv">>]

(***************************************************************************)
(* Everything a program can do with a store: random histories of a profile *)
(* mix its own calls with these.                                           *)
(***************************************************************************)
(* documents with many keys, with deep keys, with long keys *)
Bulk(n, i) ==
  CASE i = 1 -> [j \in 1..40 |-> Lf(<<"w" \o ToString(j)>>, VI(n + j))]
    [] i = 2 -> [j \in 1..30 |-> Lf(<<"a", <<"", "é", "日", "b", "ab">>[1 + (j % 5)] \o ToString(j), "z">>, VS(n))]
    [] i = 3 -> <<Lf([j \in 1..24 |-> "d" \o ToString(j % 3)], VI(n)), Lf([j \in 1..23 |-> "d" \o ToString(j % 3)] \o <<"e">>, VS(n))>>
    [] i = 4 -> <<Lf(<<Long("x", 150), "y">>, VI(n)), Lf(<<Long("x", 149) \o "z">>, VS(n)), Lf(<<Long("é", 140)>>, VI(n))>>
    [] OTHER -> [j \in 1..26 |-> Lf(<<SubSeq("abcdefghijklmnopqrstuvwxyz", j, j), "a">>, VI(n))]
RichProps == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C17", "C18", "C19", "C20"}
Rich(P, pool, K, Q, st, n) ==
  LET store(h) == st.trees[st.views[h].tree].kind = "store"
      h0 == RandomElement(DOMAIN st.views)
      k0 == Rel(st.views[h0], RandomElement(Image(K)))
      q0 == Rel(st.views[h0], RandomElement(Image(Q)))
      doc == RandomElement(Image(Docs(n)))
  IN Writes(h0, k0, n) \o Writes(h0, k0, n + 1) \o <<CSet(h0, k0, OddVal(n)), CSet(h0, k0, OddVal(n + 7)), CIns(h0, k0, OddVal(n + 3)), CSetEx(h0, k0, OddVal(n + 11), "")>>
     \o <<CRem(h0, k0), CRemX(h0, k0), CRem(h0, q0), CRem(h0, k0), CRemX(h0, q0)>>
     \o MetaCalls(h0, k0, n) \o MoreMeta(h0, k0, n)
     \o <<CSetEx(h0, k0, VI(n), "tag"), CSetEx(h0, k0, VS(n), "comment"), CSetEx(h0, k0, VS(n), "empty"), CUpd(h0, k0, "data"), CUpd(h0, k0, "comment"), CUpd(h0, q0, ""), CUpd(h0, k0, "empty"),
           CGetEx(h0, k0, "data"), CGetEx(h0, k0, "tag"), CGetEx(h0, q0, "empty"), CGetEx(h0, q0, "comment")>>
     \o <<CMerge(h0, "", doc), CMerge(h0, k0, doc), CMerge(h0, "b", doc), CMerge(h0, q0, <<Lf(<<"b">>, VI(n))>>), CMerge(h0, "", Bulk(n, RandomElement(1..5))), CMut(h0, k0)>>
     \o (IF store(h0) THEN <<CSetL(h0, k0, VI(n)), CRemL(h0, k0), CMergeL(h0, "b", doc), CLoad(h0, "", "map", doc), CLoad(h0, "a", "once", doc), CLoad(h0, "", "stream", doc), CLoad(h0, "", "map", MetaDoc(n)),
                               [CLoad(h0, "app", "map", doc) EXCEPT !.w = TRUE], [CLoad(h0, "", "map", doc) EXCEPT !.fl = "on"], [CLoad(h0, "", "map", doc) EXCEPT !.fail = "read"],
                               CNest(h0, k0, q0, VI(n), "within")>>
          ELSE <<>>)
     \o (IF st.srcs # <<>> THEN Announcements(RandomElement(DOMAIN st.srcs), K, n) ELSE <<>>)
     \o <<CClone(h0), CPre(h0, <<Seg1(st, k0)>>), CPreR(h0, <<Seg1(st, k0)>>), CMode(h0, "u"), CMode(h0, "n"), CMode(h0, "d"), CPre(h0, <<>>)>>
     \o Handles(st, RandomElement(Image(K))) \o (IF st.nh = <<>> THEN <<>> ELSE LET i == RandomElement(DOMAIN st.nh) IN OnHandle(i, n) \o MoreOnHandle(i, n))
     \o (IF P = "C12" THEN <<CTTL(h0, k0, 4), CTTL(h0, q0, 9), CAdv(5)>> ELSE <<>>)

(* values of all kinds to be saved *)
SaveVals(n) == <<"nil", VI(n), "b:true", "b:false", "i:0", "s:", "ls:a,b", "la:x,y">>

Muts(P, pool, K, Q, st, n) ==
  LET all == Sim(pool)
      sets == IF all THEN EachCat(K, LAMBDA k : Writes(1, k, n)) ELSE Each(K, LAMBDA k : IF Start0(pool) >= 3 THEN Write(1, k, n) ELSE CSet(1, k, VI(n)))
      rems == Each(IF all THEN K \o Q ELSE K, LAMBDA k : CRem(1, k))
  IN
  CASE P \in {"C01", "C04"} -> sets \o rems
    [] P = "C02" -> (IF all THEN EachCat(K, LAMBDA k : Writes(1, k, n)) ELSE Each(K, LAMBDA k : CSet(1, k, VI(n)))) \o rems
    [] P = "C03" -> (IF all THEN EachCat(K, LAMBDA k : Writes(1, k, n)) ELSE Each(K, LAMBDA k : CSet(1, k, VI(n))))
                    \o Each(K, LAMBDA k : CRemX(1, k)) \o Each(Q, LAMBDA k : CRem(1, k))
                    \o (IF all THEN EachCat(K, LAMBDA k : MetaCalls(1, k, n)) ELSE <<>>)
    [] P = "C05" ->
         OnAll(st, K, LAMBDA h, k : CSet(h, k, VI(n))) \o OnAll(st, K, LAMBDA h, k : CRem(h, k))
         \o EachH(st, LAMBDA h : <<CMerge(h, "", Docs(n)[1]), CMerge(h, "b", Docs(n)[2])>>)
         \o (IF all \/ st.trees[1].kind = "trie" THEN OnAll(st, K, LAMBDA h, k : CTag(h, k, VI(n))) \o OnAll(st, K, LAMBDA h, k : CCom(h, k, "d" \o ToString(n), "c")) ELSE <<>>)
         \o (IF all THEN EachH(st, LAMBDA h : EachCat(K, LAMBDA k : Writes(h, Rel(st.views[h], k), n)))
                         \o (IF st.trees[1].kind = "store" THEN EachH(st, LAMBDA h : <<CLoad(h, "", "map", Docs(n)[1])>>) ELSE <<>>)
              ELSE <<CPreR(2, <<"b">>), CSetPre(2, <<"a", "b">>), CSetPre(2, <<"b">>), CPre(1, <<"a", "b">>), CPreR(3, <<"">>), CPreR(3, <<>>), CSetPre(3, <<"">>),
                     CPre(2, <<>>), CPre(2, <<"">>), CPre(3, <<"", "c">>)>>)
         \o ViewCalls(st, K, all)
    [] P = "C06" ->
         OnAll(st, K, LAMBDA h, k : CSet(h, k, <<"ls:a,b", "mn:x", "ms:a,b", "mi:k=1", "la:x,y", "ma:k=x", VI(n), "li:1,2", "l2:a,b", "mx:k=x", "by:ab", "m2:x", "ln:p,q", "ly:p,q">>[((n + pool) % 14) + 1]))
         \o OnAll(st, K, LAMBDA h, k : CRem(h, k))
         \o OnAll(st, K, LAMBDA h, k : CMut(h, k))
         \o OnAll(st, SubSeq(K, 1, 1), LAMBDA h, k : CTag(h, k, VI(n))) \o OnAll(st, SubSeq(K, 1, 1), LAMBDA h, k : CCom(h, k, "d" \o ToString(n), "c"))
         \o EachH(st, LAMBDA h : <<CClone(h), [CClone(h) EXCEPT !.must = TRUE], CMerge(h, "q", Docs(n)[3])>>)
         \o (IF all THEN ViewCalls(st, K, TRUE) \o EachCat(K, LAMBDA k : Handles(st, k)) \o EachCat(NHs(st), LAMBDA i : OnHandle(i, n))
                         \o EachH(st, LAMBDA h : <<CMerge(h, "b", Docs(n)[2]), CMerge(h, "b", Docs(n)[4]), CMerge(h, "", Docs(n)[5]), CDelim(h, "/"), CSetPre(h, <<"q">>), CMode(h, "u"), CMode(h, "d")>>) ELSE <<>>)
    [] P = "C07" ->
         EachCat(K, LAMBDA k : <<CSet(1, k, VI(n)), CRem(1, k)>> \o MetaCalls(1, k, n))
         \o (IF ~all THEN <<MoreMeta(1, K[1], n)[1 + (n % 10)], MoreMeta(1, K[2], n)[1 + ((n + 3) % 10)], MoreMeta(1, K[3], n)[1 + ((n + 6) % 10)], CHandle(1, K[1], "locate")>>
                          \o Each(NHs(st), LAMBDA i : MoreOnHandle(i, n)[3 + ((n + pool) % 4)]) ELSE
              EachCat(K, LAMBDA k : MoreMeta(1, k, n)) \o EachCat(K, LAMBDA k : Handles(st, k)) \o EachCat(NHs(st), LAMBDA i : OnHandle(i, n) \o MoreOnHandle(i, n)) \o EachCat(K, LAMBDA k : Writes(1, k, n) \o <<CSetNode(1, k, VI(n), "nil", 1, "one", ""), CSetEx(1, k, VI(n), "comment"), CUpd(1, k, "tag")>>)
                                    \o Each(Q, LAMBDA k : CTag(1, k, VI(n))) \o Each(Q, LAMBDA k : CRem(1, k))
                                    \o ViewCalls(st, K, TRUE) \o OnAll(st, K, LAMBDA h, k : CCom(h, k, "vd", "vc")))
    [] P = "C08" ->
         EachCat(K, LAMBDA k : <<CSet(1, k, VI(n)), CSetL(1, k, VI(n)), CRem(1, k)>>)
         \o (IF all THEN Loads(1, n, TRUE) ELSE <<CLoad(1, "", "map", Docs(n)[2]), CLoad(1, "a", "once", Docs(n)[1])>>)
         \o <<CMerge(1, "a", Docs(n)[1]), CMergeL(1, "a", Docs(n)[1])>>
         \o (IF all THEN EachCat(K, LAMBDA k : Handles(st, k)) \o EachCat(NHs(st), LAMBDA i : OnHandle(i, n)) \o EachCat(NHs(st), LAMBDA i : OnHandle(i, n))
                         \o Failing(1, n) \o ViewCalls(st, K, TRUE) \o EachH(st, LAMBDA h : <<CClone(h)>>)
                         \o OnAll(st, K, LAMBDA h, k : CSet(h, k, VI(n))) \o OnAll(st, K, LAMBDA h, k : CSetL(h, k, VI(n)))
                         \o EachH(st, LAMBDA h : <<CMergeL(h, "b", Docs(n)[1]), CMerge(h, "", Docs(n)[2]), CLoad(h, "", "map", Docs(n)[1])>>)
              ELSE <<CHandle(1, K[1], "locate")>> \o EachCat(NHs(st), LAMBDA i : <<CNMod(i, FALSE), CNToggle(i), CNReset(i)>>))
    [] P = "C09" ->
         LET store == st.trees[1].kind = "store" IN
         EachH(st, LAMBDA h : Cat([i \in DOMAIN Docs(n) |->
            <<CMerge(h, "", Docs(n)[i]), AnyMaps(CMerge(h, "a", Docs(n)[i]))>>
            \o (IF all THEN <<AnyMaps(CMerge(h, "", Docs(n)[i])), CMerge(h, "a" \o DL(st) \o "b", Docs(n)[i]), CMerge(h, "é", Docs(n)[i])>> ELSE <<>>)
            \o (IF ~store THEN <<>> ELSE <<CLoad(h, IF i % 2 = 0 THEN "app" ELSE "", <<"map", "once", "stream", "maps">>[((i + n) % 4) + 1], Docs(n)[i])>>)]))
         \o (IF store THEN EachH(st, LAMBDA h : Loads(h, n, all)) \o <<CLoad(1, "", "map", MetaDoc(n)), CLoad(1, "e", "map", MetaDoc(n)),
                            [CLoad(1, "", "map", Docs(n)[3]) EXCEPT !.fl = "on"], [CLoad(1, "", "map", Docs(n)[4]) EXCEPT !.fl = "off"],
                            [CLoad(1, "x", "once", Docs(n)[5]) EXCEPT !.fl = "on"], [CLoad(1, "a", "stream", Docs(n)[5]) EXCEPT !.fl = "off"]>> ELSE <<>>)
         \o (IF all THEN sets \o rems \o ViewCalls(st, K, TRUE) ELSE <<CSet(1, "b", VI(n)), CSet(1, "a" \o DL(st) \o "b", VI(n)), CRem(1, "b")>>)
    [] P = "C10" ->
         EachCat(K, LAMBDA k : <<CSet(1, k, VS(n)), CRem(1, k)>>)
         \o (IF all THEN EachCat(K, LAMBDA k : Each(SaveVals(n), LAMBDA v : CSet(1, k, v))) ELSE <<CSet(1, K[1], SaveVals(n)[1 + ((n + pool) % 8)]), CSet(1, K[2], "nil")>>)
         \o <<CSet(1, "s" \o DL(st) \o "t" \o DL(st) \o "u", VS(n)), CSet(1, "a" \o DL(st) \o "q", VS(n)), CSet(1, "k", VS(n)), CMerge(1, "a", <<Lf(<<"z", "y">>, VS(n))>>),
              CSet(1, "é" \o DL(st) \o "b", VS(n))>>
         \o (IF all THEN EachCat(<<"json", "yaml", "toml", "hjson", "nestext", "gob">>, LAMBDA cd :
                            <<[CLoad(1, "a", "once", TextDoc(n)) EXCEPT !.cd = cd], [CLoad(1, "", "once", TextDoc(n)) EXCEPT !.cd = cd]>>)
                         \o <<[CLoad(1, "", "once", Docs(n)[1]) EXCEPT !.cd = "rec"], [CLoad(1, "é.è", "once", TextDoc(n)) EXCEPT !.cd = "rec"],
                              [CLoad(1, "a", "writer", TextDoc(n)) EXCEPT !.cd = "rec", !.via = "pcodec"], [CLoad(1, "", "map", TextDoc(n)) EXCEPT !.cd = "rec"],
                              [CLoad(1, "s", "writer", TextDoc(n)) EXCEPT !.cd = "rec"], [CLoad(1, "", "once", TextDoc(n)) EXCEPT !.cd = "rec", !.via = "pcodec"],
                              CLoad(1, "b", "map", TextDoc(n))>>
                         \o EachCat(NHs(st), LAMBDA i : <<CNMod(i, FALSE), CNMod(i, TRUE)>>) \o Each(K, LAMBDA k : CHandle(1, k, "locate"))
                         \o EachCat([i \in DOMAIN st.ldrs |-> i], LAMBDA l : <<CSave(l, FALSE, ""), CSave(l, TRUE, ""), CSave(l, FALSE, "write"), CSave(l, TRUE, "enc"), CRound(l, FALSE, "")>>)
                         \o ViewCalls(st, K, TRUE) \o OnAll(st, K, LAMBDA h, k : CSet(h, k, VS(n)))
              ELSE <<CSave(1, FALSE, ""), CSave(1, FALSE, "write"), CSave(1, FALSE, "enc"), CHandle(1, K[1], "locate")>> \o EachCat(NHs(st), LAMBDA i : <<CNMod(i, FALSE)>>))
    [] P = "C11" ->
         OnAll(st, K, LAMBDA h, k : CSet(h, k, VI(n))) \o OnAll(st, K, LAMBDA h, k : CRem(h, k))
         \o EachH(st, LAMBDA h : <<CMerge(h, "b", Docs(n)[3]), CLoad(h, "", "map", Docs(n)[1])>>)
         \o <<CSetL(1, K[1], VS(n)), CSetL(2, K[2], VS(n)), CRem(1, Seg1(st, K[1])), CRemL(1, K[1]), CClone(1)>>
         \o (IF all THEN ViewCalls(st, K, TRUE) \o Each(Q, LAMBDA k : CRem(1, k)) \o EachH(st, LAMBDA h : Loads(h, n, FALSE)) \o Failing(1, n)
                         \o OnAll(st, K, LAMBDA h, k : CSetL(h, k, VI(n))) \o OnAll(st, K, LAMBDA h, k : CRemX(h, k))
                         \o EachH(st, LAMBDA h : <<CMergeL(h, "b", Docs(n)[2]), CMode(h, "u"), CMode(h, "n")>>) ELSE <<>>)
    [] P = "C12" ->
         EachCat(K, LAMBDA k : <<CTTL(1, k, 10), CRem(1, k), CSet(1, k, VI(n))>>)
         \o <<CTTL(2, Rel(st.views[2], K[1]), 5), CTTL(1, Seg1(st, K[1]), 10), CTTL(1, "zz", 10), CAdv(5), CAdv(11), CClose(1),
              CTTLN(1, K[1], 10), CTTL(1, K[1], 90000), CAdv(89990)>>
         \o (IF all THEN Each(Q, LAMBDA k : CTTL(1, k, 7)) \o Each(Q, LAMBDA k : CRem(1, k)) \o EachCat(K, LAMBDA k : Handles(st, k))
                         \o EachCat(NHs(st), LAMBDA i : <<CTTLFast(1, i, 8), CTTLFast(2, i, 3), CTTLFastN(1, i, 6)>>) \o <<CAdv(1), CAdv(3), CAdv(20), CAdv(1000)>>
                         \o Each(K, LAMBDA k : CTTL(1, k, 1500)) \o Each(K, LAMBDA k : CTTLN(1, k, 8)) \o Each(Q, LAMBDA k : CTTLN(2, k, 4)) \o ViewCalls(st, K, TRUE)
                         \o OnAll(st, K, LAMBDA h, k : CTTL(h, k, 6)) \o <<CClone(1)>> \o EachCat(K, LAMBDA k : Writes(1, k, n))
              ELSE <<CHandle(1, K[1], "locate")>> \o EachCat(NHs(st), LAMBDA i : <<CTTLFast(1, i, 8)>>))
    [] P = "C14" ->
         EachCat(K, LAMBDA k : <<CSet(1 + (n % 3), k, IF n % 3 = 0 THEN "nil" ELSE VI(n)), CRem(1, k)>>)
         \o (IF all THEN EachCat(K, LAMBDA k : <<CSet(1, k, OddVal(n)), CTag(1, k, VI(n)), CCom(1, k, "d" \o ToString(n), "c")>>) \o <<CMode(1, "u"), CMode(2, "n"), CMode(2, "u"), CMode(1, "d"), CMode(1, "n")>> \o ViewCalls(st, K, TRUE) ELSE <<>>)
    [] P = "C15" ->
         EachCat(SubSeq(K, 1, IF all THEN Len(K) ELSE 4), LAMBDA k : <<CSet(1, k, VI(n)), CRem(1, k)>>)
         \o <<CMerge(1, "", Docs(n)[3]), CMerge(2, "b", Docs(n)[5]), CDelim(1, "."), CDelim(1, Dl(pool)), CDelim(1, "-"), CDelim(2, "é"), CPre(1, <<"a", "b">>), CTag(1, K[1], VI(n))>>
         \o (IF all THEN OnAll(st, K, LAMBDA h, k : CSet(h, k, VS(n))) \o Each(Q, LAMBDA k : CRem(1, k))
                         \o EachH(st, LAMBDA h : <<CMerge(h, "a", Docs(n)[2]), CDelim(h, "/"), CDelim(h, "本"), CLoad(h, "", "map", Docs(n)[6]), CMode(h, "u")>>)
                         \o ViewCalls(st, K, TRUE) ELSE <<>>)
    [] P = "C17" ->
         Announcements(1, K, n)
         \o EachCat(SubSeq(K, 1, IF all THEN Len(K) ELSE 1), LAMBDA k : <<CSet(1, k, VI(n)), CRem(1, k)>>)
         \o <<CClose(1), [CLoad(1, "b", "once", Docs(n)[1]) EXCEPT !.w = TRUE, !.cd = "rec"], [CLoad(1, "", "map", Docs(n)[1]) EXCEPT !.w = TRUE, !.nw = TRUE]>>
         \o (IF all THEN Each(Q, LAMBDA k : CAnn(1, "remove", << <<k, "nil">> >>)) \o EachCat([i \in DOMAIN st.srcs |-> i], LAMBDA s : Announcements(s, K, n))
                         \o <<[CLoad(1, "a", "stream", Docs(n)[2]) EXCEPT !.w = TRUE], [CLoad(1, "", "map", Docs(n)[1]) EXCEPT !.w = TRUE, !.fail = "read"]>>
                         \o ViewCalls(st, K, TRUE) \o EachH(st, LAMBDA h : <<[CLoad(h, "", "map", Docs(n)[2]) EXCEPT !.w = TRUE]>>)
              ELSE <<CAnn(2, "write", << <<"c", VI(n)>> >>), CAnn(2, "remove", << <<"c", VI(n)>> >>)>>)
    [] P = "C18" ->
         EachCat(K, LAMBDA k : <<CSet(1, k, VI(n)), CRem(1, k), CSetEx(1, k, VI(n), ""), CUpd(1, k, "data"), CGetEx(1, k, "comment")>>)
         \o (IF all THEN EachCat(K \o Q, LAMBDA k : <<CSetEx(1, k, VI(n), "data"), CSetEx(1, k, VS(n), "tag"), CSetEx(1, k, VI(n), "comment"), CSetEx(1, k, VS(n), "mod"), CSetEx(1, k, VI(n), "empty"),
                                                      CUpd(1, k, ""), CUpd(1, k, "tag"), CUpd(1, k, "comment"), CUpd(1, k, "mod"), CUpd(1, k, "empty"),
                                                      CGetEx(1, k, ""), CGetEx(1, k, "data"), CGetEx(1, k, "tag"), CGetEx(1, k, "empty"), CGetEx(1, k, "mod"), CRem(1, k)>>)
                         \o EachCat(K, LAMBDA k : MetaCalls(1, k, n)) \o ViewCalls(st, K, TRUE)
                         \o OnAll(st, K, LAMBDA h, k : CSetEx(h, k, VI(n), "tag")) \o OnAll(st, K, LAMBDA h, k : CUpd(h, k, "data")) \o OnAll(st, K, LAMBDA h, k : CGetEx(h, k, "data"))
              ELSE <<CUpd(1, K[1], "comment"), CUpd(1, K[2], "")>>)
    [] P = "C19" ->
         (IF all THEN sets \o rems \o EachCat(K, LAMBDA k : Handles(st, k)) \o EachCat(K, LAMBDA k : MetaCalls(1, k, n))
                      \o EachCat(NHs(st), LAMBDA i : OnHandle(i, n) \o OnHandle(i, n) \o MoreOnHandle(i, n)) \o ViewCalls(st, K, TRUE) \o OnAll(st, K, LAMBDA h, k : CSetK(h, k, VI(n)))
          ELSE Each(K, LAMBDA k : IF Len(st.nh) < 4 THEN CSetK(1, k, VI(n)) ELSE CSet(1, k, VI(n))) \o Each(K, LAMBDA k : CRem(1, k))
               \o <<CHandle(1, K[1], "walk"), CSetExK(1, K[2], VI(n), ""), CGetExK(1, K[1], ""), CUpdK(1, K[3], "")>>
               \o EachCat(NHs(st), LAMBDA i : <<CNData(i, IF n % 2 = 0 THEN "nil" ELSE VS(n)), CNCom(i, "hd" \o ToString(n), "hc"), CNTag(i, "s:h")>>))
    [] P = "C20" ->
         Failing(1, n)
         \o <<CLoad(1, "", "map", Docs(n)[1]), [CLoad(1, "a", "once", Docs(n)[1]) EXCEPT !.fail = "nested"], [CLoad(1, "", "map", Docs(n)[1]) EXCEPT !.fail = "nested"],
              CNest(1, K[1], K[2], VI(n), "load"), CNest(1, K[1], K[2], VI(n), "within"), CNest(1, K[2], K[1], VI(n), "view"),
              CSet(1, K[1], VI(n)), CSet(1, K[3], VS(n)), CSetL(1, K[1], VI(n)), CMerge(1, "b", Docs(n)[1])>>
         \o (IF all THEN Each(K, LAMBDA k : CSet(1, k, VI(n))) \o rems \o ViewCalls(st, K, TRUE) \o EachH(st, LAMBDA h : Failing(h, n)) \o EachH(st, LAMBDA h : Loads(h, n, FALSE))
                         \o OnAll(st, K, LAMBDA h, k : CSetL(h, k, VI(n))) \o OnAll(st, K, LAMBDA h, k : CSet(h, k, VS(n)))
              ELSE <<CRem(1, K[1])>>)
    [] P = "C13" ->
         Each(K, LAMBDA k : CSet(1, k, VI(n))) \o Each(SetToSeq(DOMAIN KV(st, 1)), LAMBDA k : CRem(1, k))
         \o (IF all THEN Each(K, LAMBDA k : CSet(1, k, VS(n))) \o Each(K, LAMBDA k : CSet(2, Rel(st.views[2], k), VI(n))) ELSE <<>>)
    [] P = "C16" ->
         IF ~all THEN Each(AllTyped, LAMBDA v : CTSet(1 + (pool % 2), Rel(st.views[1 + (pool % 2)], K[1 + (n % 3)]), v)) \o (IF n > 1 THEN rems ELSE <<>>)
         ELSE OnAll(st, K, LAMBDA h, k : CTSet(h, k, RandomElement(Image(AllTyped)))) \o OnAll(st, K, LAMBDA h, k : CTSet(h, k, RandomElement(Image(AllTyped))))
              \o rems \o ViewCalls(st, K, TRUE) \o EachH(st, LAMBDA h : <<CMode(h, "u"), CMode(h, "n")>>)
    [] P = "C21" ->
         IF all THEN EachH(st, LAMBDA h : EachCat(<<"env", "flags">>, LAMBDA src : [i \in 1..5 |->
                        CProv(h, src, DrawEnv(src), RandomElement(Image(ProvOpts)), TRUE, "a.b")]))
                     \o Cat([i \in DOMAIN MapDocs(n) |-> <<CLoad(1, "", "maps", MapDocs(n)[i]), CLoad(1, "app", "maps", MapDocs(n)[i]), AnyMaps(CLoad(1, "", "maps", MapDocs(n)[i])), [CLoad(1, "", "maps", MapDocs(n)[i]) EXCEPT !.via = <<"slash", "slashopt", "nodl">>[1 + ((i + n) % 3)]]>>])
                     \o sets \o rems \o ViewCalls(st, K, TRUE)
         ELSE IF Base(pool) \in {1, 2} THEN
           LET src == <<"env", "flags">>[Base(pool)] IN
           EachCat(EnvOf(src), LAMBDA e : EachCat(ProvOpts, LAMBDA o :
             <<CProv(Len(st.views), src, e, o, TRUE, KeyOf(e[1][1], o)), CProv(1, src, e, o, FALSE, "nosuch"), CProv(1, src, e, o, FALSE, e[2][1])>>))
         ELSE Cat([i \in DOMAIN MapDocs(n) |-> <<CLoad(1, "", "maps", MapDocs(n)[i]), CLoad(1, "app.d", "maps", MapDocs(n)[i]), AnyMaps(CLoad(1, "", "maps", MapDocs(n)[i])), [CLoad(1, "", "maps", MapDocs(n)[i]) EXCEPT !.via = <<"slash", "slashopt", "nodl">>[1 + ((i + n) % 3)]]>>])
    [] P = "C23" ->
         Each(K, LAMBDA k : CSet(1, k, SecVal(k, DL(st), n))) \o rems
         \o <<CMerge(1, Seg1(st, K[1]), SecDoc(n)[1 + (n % 3)])>>
         \o (IF all THEN EachCat(K, LAMBDA k : <<CSet(1, k, SecVal(k, DL(st), n + 1)), CSet(1, k, SecVal(k, DL(st), n + 2)), CIns(1, k, SecVal(k, DL(st), n + 3)), CSetEx(1, k, SecVal(k, DL(st), n + 4), "")>>)
                         \o EachCat(SecDoc(n), LAMBDA d : <<CMerge(1, "", d), CMerge(1, "a", d), CMerge(2, "", d)>> \o (IF IsStore(st, 1) THEN <<CLoad(1, "", "map", d), CLoad(1, "ab", "once", d)>> ELSE <<>>))
                         \o OnAll(st, K, LAMBDA h, k : CSet(h, k, SecVal(k, DL(st), n))) \o ViewCalls(st, K, TRUE) \o EachH(st, LAMBDA h : <<CMode(h, "u"), CMode(h, "n"), CClone(h)>>)
              ELSE <<CMerge(2, "", SecDoc(n)[1 + ((n + 1) % 3)])>>)
    [] P = "C24" ->
         LET cd == IF all THEN RandomElement(Image(Formats)) ELSE FmtOf(pool)
             fsets == <<CSet(1, "b", FVal(cd, n + 4)), CSet(1, "a.c", FVal(cd, 2 * n + 9)), CRem(1, "a")>>
         IN
         IF all THEN
           LET f == RandomElement({1, 2})  fcd == FileCd(st, f, pool)  sp == RandomElement({"", "a", "x.y", "é"}) IN
           EachCat(FDocs(cd, n), LAMBDA d : <<CFPut(f, cd, d, n % 2)>>) \o <<CFPut(f, cd, << Lf(<<"r">>, RandomElement(Image(FHold(cd)))), Lf(<<"a", "r">>, RandomElement(Image(FHold(cd)))) >>, 0), CFBad(f, cd, n % 4), CFDel(f)>>
           \o EachH(st, LAMBDA h : FLoads(h, f, fcd, sp) \o <<[CFLoad(h, f, sp, fcd, "file", TRUE) EXCEPT !.fl = "on"], [CFLoad(h, f, sp, fcd, "file", TRUE) EXCEPT !.fl = "off"]>>)
           \o EachH(st, LAMBDA h : EachCat(<<"b", "a.c", "l", "é.日", "q", "x.y.z">>, LAMBDA k : <<CSet(h, k, RandomElement(Image(FVals))), CRem(h, k)>>))
           \o EachCat([i \in DOMAIN st.ldrs |-> i], LAMBDA l : <<CFSave(l), CFSave(l), CFSaveAs(l, f, cd, "file", TRUE), [CFSaveAs(l, f, cd, "file", TRUE) EXCEPT !.w = TRUE], CFSaveAs(l, f, cd, "file", FALSE), CFSaveAs(l, f, cd, "fs", TRUE)>>)
           \o <<CCDec(f, fcd), CPre(1, <<"a">>), CPre(1, <<"x", "y">>)>>
         ELSE IF Start0(pool) = 1 THEN
           Each(FHold(cd), LAMBDA v : CFPut(1, cd, <<Lf(<<"k">>, v), Lf(<<"a", "k">>, v)>>, n % 2)) \o <<CFLoad(1, 1, "", cd, "file", TRUE), CFLoad(1, 1, "a", cd, "fs", FALSE), CFBad(1, cd, 0), CFBad(1, cd, 1), CFBad(1, cd, 2), CFBad(1, cd, 3)>>
         ELSE
           <<CFPut(1, cd, FDocs(cd, n)[1], 0), CFPut(1, cd, FDocs(cd, n)[3], 1), CFBad(1, cd, n % 4), CFDel(1)>>
           \o SubSeq(FLoads(1, 1, cd, IF n % 2 = 0 THEN "a" ELSE ""), 1, 4) \o (IF cd = "json" THEN <<CFLoad(1, 1, "", cd, "plain", FALSE)>> ELSE <<>>)
           \o fsets \o EachCat([i \in DOMAIN st.ldrs |-> i], LAMBDA l : <<CFSave(l), CFSaveAs(l, 2, cd, "file", TRUE), CFSaveAs(l, 1, cd, "file", FALSE), CFSaveAs(l, 2, cd, "fs", TRUE)>>)
    [] P = "C22" ->
         LET k == K[1] IN
         IF all THEN [i \in 1..10 |-> CSet(1, K[1 + (i % Len(K))], "s:" \o DrawSize)] \o <<CSet(1, k, "s:" \o DrawOdd), CSet(1, k, "i:" \o ToString(RandomElement(0..100000))), CRem(1, k), CSet(1, k, "s:")>>
         ELSE IF Base(pool) = 4 THEN Each(OddTexts, LAMBDA x : CSet(1, k, "s:" \o x)) \o <<CSet(1, k, "i:0"), CSet(1, k, "i:2048"), CSet(1, k, "nil"), CSet(1, k \o DL(st) \o "z", "s:1K")>>
         ELSE EachCat(Numbers, LAMBDA x : EachCat(UnitSeq, LAMBDA u : Each(SizeSufs, LAMBDA f :
                CSet(1, k, "s:" \o <<"", " ", "">>[Base(pool)] \o x \o <<"", "", " ">>[Base(pool)] \o u \o f \o <<"", "  ", "">>[Base(pool)]))))

-----------------------------------------------------------------------------
(* what is asked at the end of a history *)
KV1(st) == DOMAIN st.trees[1].kv
AskAll(h, p) == <<CGet(h, p), CHas(h, p), CQuery(h, p), CLoc(h, p), CGetEx(h, p, ""), CHasPart(h, p)>>
Extract(h, p, d) ==
  <<CGetR(h, p), CGetM(h, p), CGetMx(h, p, TRUE, FALSE, ""), CGetMx(h, p, FALSE, TRUE, ""), CGetMx(h, p, TRUE, TRUE, ""), CGetMx(h, p, FALSE, FALSE, "int"),
    CGetMx(h, p, FALSE, TRUE, "mod"), CGetMx(h, p, FALSE, FALSE, "none")>>

Probes(P, pool, K, Q, st) ==
  LET gets == Each(K, LAMBDA k : CGet(1, k))
      metas == Each(K, LAMBDA k : CMeta(1, k))
      secs == SetToSeq({Seg1(st, K[i]) \o DL(st) : i \in DOMAIN K})
  IN
  CASE P = "C01" -> gets \o Each(Trim(Q, 8), LAMBDA k : CGet(1, k)) \o Each(Trim(K, 3), LAMBDA k : CLoc(1, k))
                    \o (IF Sim(pool) THEN OnAll(st, Trim(K, 10), LAMBDA h, k : CGet(h, k)) ELSE <<>>)
    [] P = "C02" -> EachCat(Q, LAMBDA q : AskAll(1, q))
                    \o (IF Sim(pool) THEN EachH(st, LAMBDA h : EachCat(Trim(Q, 4), LAMBDA q : AskAll(h, Rel(st.views[h], q)))) ELSE <<>>)
    [] P = "C03" -> gets \o metas \o Each(Q, LAMBDA q : CHas(1, q)) \o <<CGetR(1, "")>>
                    \o (IF Sim(pool) THEN OnAll(st, Trim(K, 6), LAMBDA h, k : CGet(h, k)) \o OnAll(st, Trim(K, 6), LAMBDA h, k : CMeta(h, k)) \o EachH(st, LAMBDA h : <<CContent(h, "all")>>) ELSE <<>>)
    [] P = "C04" -> EachCat(<<"", ".">> \o Q, LAMBDA q : Trim(Extract(1, q, DL(st)), IF Sim(pool) THEN 8 ELSE 5))
                    \o <<CWalk(1, "")>> \o Each(secs, LAMBDA s : CWalk(1, s)) \o <<CGetR(2, ""), CGetM(2, ""), CGetMx(2, "", TRUE, FALSE, ""), CGetMx(2, "", FALSE, TRUE, "")>>
                    \o EachCat(Trim(Q, 4), LAMBDA q : <<CGetR(2, Rel(st.views[2], q)), CGetM(2, Rel(st.views[2], q)), CGetMx(2, Rel(st.views[2], q), FALSE, FALSE, "int")>>)
                    \o EachCat(K, LAMBDA k : Trim(Extract(1, k, DL(st)), 2))
                    \o (IF Sim(pool) THEN EachH(st, LAMBDA h : EachCat(<<"">> \o Trim(Q, 3), LAMBDA q : Extract(h, Rel(st.views[h], q), DL(st))) \o <<CWalk(h, "")>>) ELSE <<>>)
    [] P = "C05" -> OnAll(st, K, LAMBDA h, k : CGet(h, k)) \o OnAll(st, K, LAMBDA h, k : CMeta(h, k)) \o OnAll(st, Trim(Q, 5), LAMBDA h, k : CHas(h, k))
                    \o OnAll(st, Trim(Q, 3), LAMBDA h, k : CLoc(h, k))
                    \o (IF Sim(pool) THEN OnAll(st, Trim(Q, 4), LAMBDA h, k : CQuery(h, k)) \o OnAll(st, Trim(Q, 4), LAMBDA h, k : CGetEx(h, k, "")) \o OnAll(st, Trim(Q, 4), LAMBDA h, k : CHasPart(h, k))
                                           \o OnAll(st, Trim(Q, 4), LAMBDA h, k : CGetM(h, k)) \o OnAll(st, Trim(Q, 4), LAMBDA h, k : CGetR(h, k)) \o OnAll(st, Trim(Q, 2), LAMBDA h, k : CGetMx(h, k, TRUE, TRUE, ""))
                                           \o OnAll(st, Trim(Q, 2), LAMBDA h, k : CModOf(h, k)) \o EachH(st, LAMBDA h : <<CWalk(h, "")>>)
                        ELSE <<>>)
                    \o EachH(st, LAMBDA h : <<CInfo(h), CGetR(h, ""), CGetM(h, ""), CGetR(h, "b"), CGet(h, "b"), CGet(h, "c")>>) \o <<CContent(1, "kv")>>
    [] P = "C06" -> EachH(st, LAMBDA h : <<CContent(h, "all"), CInfo(h)>>) \o OnAll(st, K, LAMBDA h, k : CGet(h, k)) \o OnAll(st, Trim(Q, 4), LAMBDA h, k : CQuery(h, k))
    [] P = "C07" -> metas \o Each(Trim(Q, 8), LAMBDA q : CMeta(1, q)) \o gets
                    \o (IF Sim(pool) THEN OnAll(st, Trim(K, 8), LAMBDA h, k : CMeta(h, k)) \o EachH(st, LAMBDA h : <<CContent(h, "meta")>>) ELSE <<>>)
    [] P = "C08" -> Each(K, LAMBDA k : CModOf(1, k)) \o <<CModOf(1, "b"), CModOf(1, "b.c"), CModOf(1, "a.c"), CGetMx(1, "", FALSE, FALSE, "mod"), CContent(1, "mods"), CContent(1, "kv")>> \o Each(K, LAMBDA k : CGet(1, k))
                    \o EachH(st, LAMBDA h : <<CGetMx(h, "", FALSE, TRUE, "mod"), CContent(h, "mods")>>)
    [] P = "C09" -> <<CContent(1, "kv"), CContent(1, "meta")>> \o gets \o EachH(st, LAMBDA h : <<CGetR(h, "")>>)
    [] P = "C10" -> EachCat([i \in DOMAIN st.ldrs |-> i], LAMBDA l : IF ~st.ldrs[l].ok THEN <<>> ELSE
                         (IF st.ldrs[l].cd = "rec" THEN <<CSave(l, FALSE, ""), CSave(l, FALSE, "write"), CSave(l, FALSE, "enc")>> ELSE IF st.ldrs[l].cd = "" \/ ~TextOnly(st, l) THEN <<>> ELSE <<CRound(l, FALSE, "")>>)
                         \o <<CSave(l, TRUE, ""), CSave(l, TRUE, "write"), CSave(l, TRUE, "enc"), CSaveTo(l, "writer", TRUE, ""), CSaveTo(l, "writer", FALSE, "write"), CSaveTo(l, "map", FALSE, ""),
                              CSaveTo(l, "", TRUE, ""), CSaveTo(l, "map", TRUE, "enc")>>
                         \o (IF TextOnly(st, l) THEN Each(<<"json", "yaml", "toml", "hjson", "nestext", "gob">>, LAMBDA cd : CRound(l, TRUE, cd)) ELSE <<>>))
                    \o <<CContent(1, "all")>>
    [] P = "C11" -> <<>>
    [] P = "C12" -> <<CContent(1, "kv"), CContent(1, "meta")>>
    [] P = "C14" -> EachH(st, LAMBDA h : EachCat(Q, LAMBDA q : <<CGet(h, Rel(st.views[h], q)), CHas(h, Rel(st.views[h], q))>>))
                    \o EachCat(Trim(Q, 9), LAMBDA q : <<CQuery(2, q), CLoc(2, q), CGetEx(2, q, ""), CMeta(2, q)>>) \o EachH(st, LAMBDA h : <<CInfo(h)>>) \o <<CContent(1, "kv")>>
    [] P = "C15" -> EachH(st, LAMBDA h : Each(Q, LAMBDA q : CQuery(h, Rel(st.views[h], q))) \o <<CGetR(h, ""), CInfo(h)>>) \o EachCat(Trim(Q, 4), LAMBDA q : <<CGetR(1, q), CGetM(1, q), CHasPart(1, q)>>)
                    \o EachCat(secs, LAMBDA s : <<CWalk(1, s), CGetM(1, s), CHas(1, s)>>) \o EachH(st, LAMBDA h : <<CGetM(h, ""), CGetMx(h, "b", TRUE, FALSE, "")>>)
                    \o <<CGetMx(1, "", FALSE, TRUE, ""), CContent(1, "kv"), CContent(1, "meta")>>
    [] P = "C17" -> <<CContent(1, "kv"), CSources>> \o gets
    [] P = "C18" -> <<CContent(1, "all")>> \o gets \o Each(Q, LAMBDA q : CGetEx(1, q, ""))
    [] P = "C19" -> Each(NHs(st), LAMBDA i : CNRead(i)) \o gets \o metas \o <<CContent(1, "all")>>
    [] P = "C20" -> <<CContent(1, "kv"), CContent(1, "mods"), CSources>>
    [] P = "C13" -> Each(Q, LAMBDA q : CRoute(1, q)) \o <<CContent(1, "kv")>>
                    \o Each(SelectSeq(Q, LAMBDA q : StartsWith(q, RouteRoot(pool) \o RDl(pool))), LAMBDA q : CRoute(2, Rel(st.views[2], q)))
    [] P = "C16" -> LET kv == KV(st, 1)
                        typed(h, k) == EachCat(SetToSeq(IF Full(st.views[h], k) \in DOMAIN kv THEN Getters(kv[Full(st.views[h], k)].v) ELSE {}), LAMBDA g : <<CTyped(h, k, g), CTypedD(h, k, g)>>)
                    IN (IF Sim(pool) THEN EachCat(Trim(K, 6), LAMBDA k : typed(1 + (Len(k) % Len(st.views)), Rel(st.views[1 + (Len(k) % Len(st.views))], k)))
                                          \o EachCat(Trim(Q, 3), LAMBDA q : EachH(st, LAMBDA h : EachCat(Each(<<1, 2, 3, 4>>, LAMBDA i : RandomElement(AllGetters)), LAMBDA g : <<CTyped(h, q, g), CTypedD(h, q, g)>>)))
                        ELSE EachCat(K, LAMBDA k : typed(1, k)) \o EachCat(K, LAMBDA k : IF Found(DOMAIN kv, k, Dl(pool)) THEN <<>> ELSE EachCat(GetterSeq, LAMBDA g : <<CTyped(1, k, g), CTypedD(1, k, g)>>)))
                       \o <<CTContent(1)>>
    [] P = "C21" -> <<CContent(1, "kv"), CContent(1, "meta")>> \o EachH(st, LAMBDA h : <<CGetR(h, "")>>)
    [] P = "C23" -> LET ask(h, q) == <<CSection(h, q), [CSection(h, q) EXCEPT !.via = "section"], [CSection(h, q) EXCEPT !.via = "generic", !.w = TRUE], [CSection(h, q) EXCEPT !.via = "generic"],
                                       [CSection(h, q) EXCEPT !.keep = TRUE], [CSection(h, q) EXCEPT !.flt = "int"], [CSection(h, q) EXCEPT !.flt = "mod", !.via = "section"], [CSection(h, q) EXCEPT !.nf = TRUE],
                                       [CSection(h, q) EXCEPT !.flt = "int", !.via = "generic"], [CSection(h, q) EXCEPT !.keep = TRUE, !.via = "generic"]>>
                    IN EachCat(<<"">> \o Q, LAMBDA q : ask(1, q)) \o <<[CSection(1, "") EXCEPT !.b = TRUE], CSection(2, ""), [CSection(2, "") EXCEPT !.flt = "none"], CSection(2, "sub"), CSection(2, "name")>>
                       \o (IF Sim(pool) THEN EachH(st, LAMBDA h : EachCat(Trim(Q, 4), LAMBDA q : ask(h, Rel(st.views[h], q)))) ELSE <<>>)
                       \o <<CContent(1, "all")>>
    [] P = "C24" -> LET cd == IF Sim(pool) THEN RandomElement(Image(Formats)) ELSE FmtOf(pool)  f1 == FileCd(st, 1, pool)  f2 == FileCd(st, 2, pool) IN
                    <<CFContent(1, f1), CFContent(2, f2), CCDec(1, f1), CCDec(2, f2), CContent(1, "kv"), CContent(1, "mods")>>
                    \o (IF Start0(pool) = 1 THEN Each(FHold(cd), LAMBDA v : CCEnc(cd, <<Lf(<<"k">>, v), Lf(<<"a", "k">>, v)>>)) ELSE Each(FDocs(cd, 2), LAMBDA d : CCEnc(cd, d)))
    [] P = "C22" -> EachCat(IF Sim(pool) THEN Append(K, "nosuch") ELSE <<K[1], "nosuch">>, LAMBDA k : EachCat(<<"KibiBytes", "KiloBytes">>, LAMBDA ty : <<CSize(1, k, ty, ""), CSize(1, k, ty, "77")>>))
                    \o Each(Trim(K, 1), LAMBDA k : CSize(2, Rel(st.views[2], k), "KibiBytes", ""))
=============================================================================
