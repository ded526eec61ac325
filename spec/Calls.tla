-------------------------------- MODULE Calls --------------------------------
(* Constructors of the calls of StoreCore. *)
EXTENDS System, SequencesExt

CNew(kind, dl, flat, watch, p) == [op |-> "new", kind |-> kind, dl |-> dl, flat |-> flat, watch |-> watch, p |-> p]
NewStore == CNew("store", ".", FALSE, FALSE, "")
NewTrie  == CNew("trie", ".", FALSE, FALSE, "")
CPre(h, ps)   == [op |-> "withprefix", h |-> h, ps |-> ps, p |-> ""]
CPreR(h, ps)  == [op |-> "withprefixr", h |-> h, ps |-> ps, p |-> ""]
CSetPre(h, ps) == [op |-> "setprefix", h |-> h, ps |-> ps, p |-> ""]
CDelim(h, dl) == [op |-> "setdelim", h |-> h, dl |-> dl, p |-> ""]
CMode(h, md)  == [op |-> "mode", h |-> h, md |-> md, p |-> ""]
CClone(h)     == [op |-> "clone", h |-> h, p |-> "", must |-> FALSE]
CInfo(h)      == [op |-> "viewinfo", h |-> h, p |-> ""]

CSet(h, p, v)   == [op |-> "set", h |-> h, p |-> p, v |-> v, ld |-> FALSE, keep |-> FALSE]
CSetK(h, p, v)  == [op |-> "set", h |-> h, p |-> p, v |-> v, ld |-> FALSE, keep |-> TRUE]
CSetL(h, p, v)  == [op |-> "set", h |-> h, p |-> p, v |-> v, ld |-> TRUE, keep |-> FALSE]
CIns(h, p, v)   == [op |-> "insert", h |-> h, p |-> p, v |-> v, keep |-> FALSE]
CSetEx(h, p, v, act) == [op |-> "setex", h |-> h, p |-> p, v |-> v, act |-> act, keep |-> FALSE]
CSetExK(h, p, v, act) == [op |-> "setex", h |-> h, p |-> p, v |-> v, act |-> act, keep |-> TRUE]
CSetNode(h, p, v, t, nd, d, c) == [op |-> "setnode", h |-> h, p |-> p, v |-> v, t |-> t, nd |-> nd, d |-> d, c |-> c, keep |-> FALSE]
CSetNodeK(h, p, v, t, nd, d, c) == [CSetNode(h, p, v, t, nd, d, c) EXCEPT !.keep = TRUE]
CSetEmpty(h, p) == [op |-> "setempty", h |-> h, p |-> p, keep |-> FALSE]
CUpd(h, p, act) == [op |-> "update", h |-> h, p |-> p, act |-> act, keep |-> FALSE]
CUpdK(h, p, act) == [op |-> "update", h |-> h, p |-> p, act |-> act, keep |-> TRUE]
CCom(h, p, d, c) == [op |-> "setcomment", h |-> h, p |-> p, d |-> d, c |-> c]
CTag(h, p, t)   == [op |-> "settag", h |-> h, p |-> p, t |-> t]
CRem(h, p)      == [op |-> "remove", h |-> h, p |-> p, ld |-> FALSE, must |-> FALSE]
CRemX(h, p)     == [op |-> "remove", h |-> h, p |-> p, ld |-> FALSE, must |-> TRUE]
CRemL(h, p)     == [op |-> "remove", h |-> h, p |-> p, ld |-> TRUE, must |-> FALSE]
Lf(s, v)        == [s |-> s, v |-> v, d |-> "", c |-> "", t |-> "nil"]
LfM(s, v, d, c, t) == [s |-> s, v |-> v, d |-> d, c |-> c, t |-> t]
CMerge(h, p, lv) == [op |-> "merge", h |-> h, p |-> p, lv |-> lv, ld |-> FALSE, via |-> ""]
CMergeL(h, p, lv) == [op |-> "merge", h |-> h, p |-> p, lv |-> lv, ld |-> TRUE, via |-> ""]
CModOf(h, p)    == [op |-> "modof", h |-> h, p |-> p]
CMut(h, p)      == [op |-> "mutate", h |-> h, p |-> p]

CGet(h, p)   == [op |-> "get", h |-> h, p |-> p]
CHas(h, p)   == [op |-> "has", h |-> h, p |-> p]
CQuery(h, p) == [op |-> "query", h |-> h, p |-> p]
CLoc(h, p)   == [op |-> "locate", h |-> h, p |-> p]
CGetEx(h, p, act) == [op |-> "getex", h |-> h, p |-> p, act |-> act, keep |-> FALSE]
CGetExK(h, p, act) == [op |-> "getex", h |-> h, p |-> p, act |-> act, keep |-> TRUE]
CHasPart(h, p) == [op |-> "haspart", h |-> h, p |-> p]
CMeta(h, p)  == [op |-> "metaof", h |-> h, p |-> p]
CGetR(h, p)  == [op |-> "getr", h |-> h, p |-> p]
CGetM(h, p)  == [op |-> "getm", h |-> h, p |-> p, keep |-> FALSE, nf |-> FALSE, flt |-> ""]
CGetMx(h, p, keep, nf, flt) == [op |-> "getm", h |-> h, p |-> p, keep |-> keep, nf |-> nf, flt |-> flt]
CWalk(h, p)  == [op |-> "walk", h |-> h, p |-> p]
CContent(h, what) == [op |-> "content", h |-> h, what |-> what, p |-> ""]

CNRead(n)        == [op |-> "nread", n |-> n, p |-> ""]
CNData(n, v)     == [op |-> "ndata", n |-> n, v |-> v, p |-> ""]
CNCom(n, d, c)   == [op |-> "ncomment", n |-> n, d |-> d, c |-> c, p |-> ""]
CNTag(n, t)      == [op |-> "ntag", n |-> n, t |-> t, p |-> ""]
CNEmpty(n)       == [op |-> "nempty", n |-> n, p |-> ""]
CNMod(n, b)      == [op |-> "nmod", n |-> n, b |-> b, p |-> ""]
CNToggle(n)      == [op |-> "ntoggle", n |-> n, p |-> ""]
CNReset(n)       == [op |-> "nreset", n |-> n, p |-> ""]
CHandle(h, p, via) == [op |-> "handle", h |-> h, p |-> p, via |-> via]

CTTL(h, p, ms)   == [op |-> "ttl", h |-> h, p |-> p, ms |-> ms, w |-> FALSE]
CTTLN(h, p, ms)  == [CTTL(h, p, ms) EXCEPT !.w = TRUE]      \* without a callback
CTTLFast(h, n, ms) == [op |-> "ttlfast", h |-> h, n |-> n, ms |-> ms, w |-> FALSE, p |-> ""]
CTTLFastN(h, n, ms) == [CTTLFast(h, n, ms) EXCEPT !.w = TRUE]
CAdv(ms)         == [op |-> "advance", ms |-> ms, p |-> ""]
CClose(h)        == [op |-> "close", h |-> h, p |-> ""]

CLoad(h, sp, src, lv) == [op |-> "load", h |-> h, sp |-> sp, src |-> src, lv |-> lv, fl |-> "", w |-> FALSE,
                          nw |-> FALSE, fail |-> "", cd |-> "", p |-> "", via |-> ""]
CNest(h, p, p2, v, how) == [op |-> "nest", h |-> h, p |-> p, p2 |-> p2, v |-> v, fail |-> how, ld |-> FALSE]
CSave(l, as, fail) == [op |-> "save", l |-> l, as |-> as, fail |-> fail, via |-> "", b |-> FALSE, p |-> ""]
CSaveTo(l, via, own, fail) == [CSave(l, TRUE, fail) EXCEPT !.via = via, !.b = own]
CRound(l, as, cd)  == [op |-> "roundtrip", l |-> l, as |-> as, cd |-> cd, p |-> ""]
CAnn(src, ev, es)  == [op |-> "announce", src |-> src, ev |-> ev, es |-> es, p |-> ""]
CSources           == [op |-> "sources", p |-> ""]

CTSet(h, p, v)      == [op |-> "tset", h |-> h, p |-> p, v |-> v, ld |-> FALSE, keep |-> FALSE]
CTyped(h, p, ty)    == [op |-> "typed", h |-> h, p |-> p, ty |-> ty, b |-> FALSE, df |-> ""]
CTypedD(h, p, ty)   == [op |-> "typed", h |-> h, p |-> p, ty |-> ty, b |-> TRUE, df |-> Default(ty)]
CTContent(h)        == [op |-> "tcontent", h |-> h, p |-> ""]
CSize(h, p, ty, df) == [op |-> "size", h |-> h, p |-> p, ty |-> ty, b |-> df # "", df |-> df]
CRoute(h, p)        == [op |-> "route", h |-> h, p |-> p]
Opts(pre, strip, lower, u2d, cb, sp) == [pre |-> pre, strip |-> strip, lower |-> lower, u2d |-> u2d, cb |-> cb, sp |-> sp]
CProv(h, src, env, opt, load, ask) == [op |-> "prov", h |-> h, src |-> src, env |-> env, opt |-> opt, b |-> load, p |-> ask]

CSection(h, p)      == [op |-> "section", h |-> h, p |-> p, keep |-> FALSE, flt |-> "", nf |-> FALSE, b |-> FALSE, via |-> "", w |-> FALSE]
CFPut(f, cd, lv, i) == [op |-> "fput", f |-> f, cd |-> cd, lv |-> lv, l0 |-> i, p |-> ""]
CFBad(f, cd, i)     == [op |-> "fbad", f |-> f, cd |-> cd, l0 |-> i, p |-> ""]
CFDel(f)            == [op |-> "fdel", f |-> f, p |-> ""]
CFLoad(h, f, sp, cd, via, b) == [op |-> "fload", h |-> h, f |-> f, sp |-> sp, cd |-> cd, via |-> via, b |-> b, fl |-> "", w |-> FALSE, p |-> ""]
CFSave(l)           == [op |-> "fsave", l |-> l, as |-> FALSE, p |-> ""]
CFSaveAs(l, f, cd, via, b) == [op |-> "fsave", l |-> l, as |-> TRUE, f |-> f, cd |-> cd, via |-> via, b |-> b, w |-> FALSE, p |-> ""]
CFContent(f, cd)    == [op |-> "fcontent", f |-> f, cd |-> cd, p |-> ""]
CCDec(f, cd)        == [op |-> "cdec", f |-> f, cd |-> cd, p |-> ""]
CCEnc(cd, lv)       == [op |-> "cenc", cd |-> cd, lv |-> lv, p |-> ""]

(* [F(x) : x in seq] *)
Each(seq, F(_)) == [i \in DOMAIN seq |-> F(seq[i])]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
EachCat(seq, F(_)) == Cat([i \in DOMAIN seq |-> F(seq[i])])
VI(n) == "i:" \o ToString(n)
VS(n) == "s:v" \o ToString(n)

(* Calls outside the domain in which the documentation gives them a meaning *)
ModeOf(st, c) == st.views[c.h].mode
Has3(c, f) == f \in DOMAIN c
Enabled(st, c) ==
  /\ Has3(c, "h") => c.h <= Len(st.views)
  /\ Has3(c, "n") => c.n <= Len(st.nh)
  /\ Has3(c, "l") => c.l <= Len(st.ldrs) /\ st.ldrs[c.l].ok
  /\ c.op \in {"set", "insert", "setex", "setnode", "setempty", "update", "ttl", "settag", "setcomment", "mutate"}
       => Full(st.views[c.h], c.p) # "" /\ ~EndsWith(Full(st.views[c.h], c.p), st.views[c.h].delim)
  /\ c.op \in {"remove", "settag", "setcomment", "ttl", "handle", "mutate"} => ModeOf(st, c) # "u"
  /\ (Has3(c, "h") /\ c.op \in {"get", "has", "query", "locate", "getex", "metaof", "modof", "typed", "size", "getr", "getm", "walk"}) =>
       (ModeOf(st, c) = "u" => ~EndsWith(Full(st.views[c.h], c.p), st.views[c.h].delim))
  /\ c.op \in {"merge", "nest"} => ~EndsWith(Full(st.views[c.h], c.p), st.views[c.h].delim)
  /\ c.op = "nest" => \A x \in {c.p, c.p2} : Full(st.views[c.h], x) # "" /\ ~EndsWith(Full(st.views[c.h], x), st.views[c.h].delim)
  /\ c.op = "haspart" => ModeOf(st, c) # "u"
  /\ c.op \in {"ttl", "ttlfast", "advance"} => (st.now \div 1000) + c.ms < 2000000
  /\ c.op \in {"ttl", "ttlfast"} => ~st.trees[st.views[c.h].tree].closed
  /\ c.op = "ttlfast" => st.nh[c.n].t = st.views[c.h].tree
  /\ c.op = "announce" => c.src <= Len(st.srcs) /\ (LView(st, st.ldrs[st.srcs[c.src].ld]).mode = "u" => "remove" \notin Image(Split(c.ev, "+")))
  /\ c.op = "section" => ModeOf(st, c) # "u" \/ ~EndsWith(Full(st.views[c.h], c.p), st.views[c.h].delim)
  \* a document is only read in its own format
  /\ c.op = "fload" => (File(st, c.f).st # "none" => File(st, c.f).cd = c.cd) /\ (c.via = "plain" => c.cd = "json")
  /\ c.op = "cdec" => File(st, c.f).st # "none" /\ File(st, c.f).cd = c.cd
  /\ c.op \in {"fput", "cenc"} => \A i \in DOMAIN c.lv : Holds(c.cd, c.lv[i].v)
  /\ c.op = "fsave" => CanSave(st, c)
  /\ c.op = "close" => ~st.trees[st.views[c.h].tree].closed
=============================================================================
