-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validates executions recorded from the real code: VP_TRACE holds, line  *)
(* by line, the calls and the answers the code gave; each answer has to be *)
(* the one the specification gives.  "reset" begins a new execution.       *)
(* What differs is written to VP_HIST.  A call outside the domain of the   *)
(* specification ends the validation of an execution.                      *)
(***************************************************************************)
EXTENDS Laws, Json, CSV

VARIABLES i, st, on, cmp

T    == ndJsonDeserialize(IOEnv.VP_TRACE)
N    == Len(T)
P    == IOEnv.VP_PROF
OUT  == IOEnv.VP_HIST
FIELDS == Image(Split(IOEnv.VP_ONLY, ","))

(* what a call has but for what the recorder left out *)
Template(op) ==
  CASE op = "new" -> NewTrie
    [] op = "set" -> CSet(1, "", "")      [] op = "insert" -> CIns(1, "", "")
    [] op = "setex" -> CSetEx(1, "", "", "") [] op = "setnode" -> CSetNode(1, "", "", "nil", 0, "", "")
    [] op = "setempty" -> CSetEmpty(1, "") [] op = "update" -> CUpd(1, "", "")
    [] op = "setcomment" -> CCom(1, "", "", "") [] op = "settag" -> CTag(1, "", "nil")
    [] op = "remove" -> CRem(1, "")       [] op = "merge" -> CMerge(1, "", <<>>)
    [] op = "mutate" -> CMut(1, "")       [] op = "get" -> CGet(1, "")
    [] op = "has" -> CHas(1, "")          [] op = "query" -> CQuery(1, "")
    [] op = "locate" -> CLoc(1, "")       [] op = "getex" -> CGetEx(1, "", "")
    [] op = "haspart" -> CHasPart(1, "")  [] op = "metaof" -> CMeta(1, "")
    [] op = "modof" -> CModOf(1, "")      [] op = "getr" -> CGetR(1, "")
    [] op = "getm" -> CGetM(1, "")        [] op = "walk" -> CWalk(1, "")
    [] op = "content" -> CContent(1, "all") [] op = "withprefix" -> CPre(1, <<>>)
    [] op = "withprefixr" -> CPreR(1, <<>>) [] op = "setprefix" -> CSetPre(1, <<>>)
    [] op = "mode" -> CMode(1, "n")       [] op = "clone" -> CClone(1)
    [] op = "viewinfo" -> CInfo(1)        [] op = "nread" -> CNRead(1)
    [] op = "ndata" -> CNData(1, "nil")   [] op = "ncomment" -> CNCom(1, "", "")
    [] op = "ntag" -> CNTag(1, "nil")     [] op = "nempty" -> CNEmpty(1)
    [] op = "nmod" -> CNMod(1, FALSE)     [] op = "ntoggle" -> CNToggle(1)
    [] op = "nreset" -> CNReset(1)        [] op = "ttl" -> CTTL(1, "", 0)
    [] op = "close" -> CClose(1)          [] op = "ttlfast" -> CTTLFast(1, 1, 0) [] op = "advance" -> CAdv(0)
    [] op = "load" -> CLoad(1, "", "map", <<>>) [] op = "nest" -> CNest(1, "", "", "nil", "within")
    [] op = "announce" -> CAnn(1, "", <<>>) [] op = "sources" -> CSources
    [] op = "save" -> CSave(1, FALSE, "") [] op = "route" -> CRoute(1, "")
(* without the fields that do not belong to the call *)
CallOf(c) == LET t == Template(c.op) IN [f \in DOMAIN t |-> IF f \in DOMAIN c THEN c[f] ELSE IF f = "h" THEN 0 ELSE t[f]]

(* sequences that are bags *)
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Image(a) : Cardinality({n \in DOMAIN a : a[n] = x}) = Cardinality({n \in DOMAIN b : b[n] = x})
SameField(f, want, got) ==
  CASE f = "m" /\ ToString(want) \notin {"TRUE", "FALSE"} -> Len(got) = Cardinality(want) /\ {ToString(x) : x \in Image(got)} = {ToString(x) : x \in want}
    [] f = "ev" -> SameBag([n \in DOMAIN want |-> ToString(want[n])], [n \in DOMAIN got |-> ToString(got[n])])
    [] OTHER -> ToString(want) = ToString(got)      \* whatever type the code answers with
Differ(c, want, got) ==
  IF "panic" \in DOMAIN got THEN {"panic"}
  ELSE IF "skip" \in DOMAIN want THEN {}
  ELSE {f \in DOMAIN want : (f \in FIELDS \/ c.op \in {"content", "route"}) /\ (f \notin DOMAIN got \/ ~SameField(f, want[f], got[f]))}

Init == i = 1 /\ st = InitState /\ on = TRUE /\ cmp = 0

Report(what, c, r) == CSVWrite("%1$s", <<ToJson([what |-> what, line |-> i, c |-> c, r |-> r])>>, OUT)
Next ==
  /\ i <= N
  /\ i' = i + 1
  /\ IF T[i].c.op = "reset" THEN st' = InitState /\ on' = TRUE /\ UNCHANGED cmp
     ELSE IF ~on THEN UNCHANGED <<st, on, cmp>>
     ELSE \E c \in {CallOf(T[i].c)} :
            IF ~Enabled(st, c) THEN Report("cut", c, R0) /\ on' = FALSE /\ UNCHANGED <<st, cmp>>
            ELSE \E x \in {TLCEval(Exec(st, c))} :
              IF Differ(c, x.r, T[i].r) # {} THEN Report("differ", c, x.r) /\ on' = FALSE /\ UNCHANGED <<st, cmp>>
              ELSE st' = x.s /\ cmp' = cmp + 1 /\ UNCHANGED on

Compared == i > N => CSVWrite("%1$s", <<ToJson([what |-> "compared", n |-> cmp])>>, OUT)
Spec == Init /\ [][Next]_<<i, st, on, cmp>>
View == i
=============================================================================
