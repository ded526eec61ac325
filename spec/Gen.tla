--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Generates behaviours of the specification with the answers each call    *)
(* must give, to be replayed against the real code, and checks the laws    *)
(* (the properties, stated on the specification) on the way.               *)
(*   bfs: every history of DEPTH calls out of the calls of the profile;    *)
(*   sim: random histories, run with -simulate.                            *)
(***************************************************************************)
EXTENDS Profiles, Laws, Json, CSV, IOUtils

VARIABLES st, hist, prev

P     == IOEnv.VP_PROF
MODE  == IOEnv.VP_GEN
POOL  == atoi(IOEnv.VP_POOL)
DEPTH == atoi(IOEnv.VP_DEPTH)
PART  == atoi(IOEnv.VP_PART)
NPART == atoi(IOEnv.VP_NPART)
OUT   == IOEnv.VP_HIST

RECURSIVE RunH(_, _, _)
RunH(s, cs, h) == IF cs = <<>> THEN [s |-> s, h |-> h]
                  ELSE LET x == Exec(s, Head(cs)) IN RunH(x.s, Tail(cs), Append(h, [c |-> Head(cs), r |-> x.r]))
Start == RunH(InitState, Setup(P, POOL), <<>>)
L0 == Len(Start.h)

Init == st = Start.s /\ hist = Start.h /\ prev = Start.s

Step(c) == LET x == Exec(st, c) IN
           /\ st' = x.s
           /\ hist' = Append(hist, [c |-> c, r |-> x.r])
           /\ prev' = st

OK(c) == Enabled(st, c) /\ Wanted(P, POOL, st, c)
NextBFS ==
  /\ Len(hist) < L0 + DEPTH
  /\ LET M == Muts(P, POOL, KeysOf(P, POOL), PathsOf(P, POOL), st, Len(hist) - L0 + 1) IN
     \E i \in DOMAIN M :
       /\ (Len(hist) = L0 => i % NPART = PART)
       /\ OK(M[i])
       /\ Sound(P, st, M[i])
       /\ Step(M[i])

(* random keys: some that are there, their fragments and enclosing sections, new ones *)
DrawKey(K) ==
  IF P = "C13" THEN (IF K # {} /\ RandomElement(1..4) = 1 THEN RandomElement(K) ELSE DrawRoute(1, RandomElement(2..5), RDl(POOL))) ELSE
  IF P = "C23" THEN (IF K # {} /\ RandomElement(1..3) = 1 THEN RandomElement(K) ELSE DrawSecKey(Dl(POOL))) ELSE
  LET r == RandomElement(1..10)
      new == JoinAll([i \in 1..(IF RandomElement(1..15) = 1 THEN RandomElement(5..11) ELSE RandomElement(1..4)) |-> RandomElement(SegsOf(P, POOL))], Dl(POOL))
  IN IF K = {} \/ r <= 5 THEN new ELSE RandomElement(K)
DrawPath(K) ==
  IF P = "C13" THEN DrawPlain(RandomElement(1..5), RDl(POOL)) ELSE
  LET r == RandomElement(1..10)
      k == DrawKey(K)
      sg == Split(k, Dl(POOL))
  IN IF r <= 4 THEN k
     ELSE IF r <= 6 THEN JoinAll(SubSeq(sg, 1, RandomElement(1..Len(sg))), Dl(POOL))
     ELSE IF r = 7 /\ Len(k) > 1 THEN SubSeq(k, 1, RandomElement(1..(Len(k) - 1)))
     ELSE IF r = 8 THEN k \o Dl(POOL) \o RandomElement(SegsOf(P, POOL))
     ELSE IF r = 9 THEN JoinAll(SubSeq(sg, 1, RandomElement(1..Len(sg))), Dl(POOL)) \o Dl(POOL)
     ELSE k
KS(s) == LET x == DOMAIN s.trees[1].kv IN x
NextSim ==
  /\ Len(hist) < L0 + DEPTH
  /\ \E K \in {TLCEval([i \in 1..3 |-> DrawKey(KS(st))])} :
     \E Q \in {TLCEval([i \in 1..3 |-> DrawPath(KS(st))])} :
     \E M \in {TLCEval(SelectSeq(Muts(P, POOL, K, Q, st, Len(hist) - L0 + 1), OK))} :
     \E X \in {TLCEval(IF P \in RichProps THEN SelectSeq(Rich(P, POOL, K, Q, st, Len(hist) - L0 + 1), OK) ELSE <<>>)} :
     \E R \in {TLCEval(SelectSeq(Probes(P, POOL, K, Q, st), LAMBDA c : Enabled(st, c)))} :
     \E x \in {RandomElement(1..10)} :
       IF x <= 2 /\ R # <<>> THEN \E i \in {RandomElement(DOMAIN R)} : Step(R[i])
       ELSE IF x <= 5 /\ X # <<>> THEN \E i \in {RandomElement(DOMAIN X)} : IF Sound(P, st, X[i]) THEN Step(X[i]) ELSE UNCHANGED <<st, hist, prev>>
       ELSE IF M = <<>> THEN UNCHANGED <<st, hist, prev>>
       ELSE \E i \in {RandomElement(DOMAIN M)} : IF Sound(P, st, M[i]) THEN Step(M[i]) ELSE UNCHANGED <<st, hist, prev>>

Next == IF MODE = "bfs" THEN NextBFS ELSE NextSim

Answer(c) == [c |-> c, r |-> Exec(st, c).r]
FinalProbes ==
  LET K == IF MODE = "bfs" THEN KeysOf(P, POOL) ELSE SetToSeq(KS(st))
      Q == IF MODE = "bfs" THEN PathsOf(P, POOL) ELSE TLCEval([i \in 1..(IF P = "C13" THEN 60 ELSE 8) |-> DrawPath(KS(st))])
      R == TLCEval(SelectSeq(Probes(P, POOL, K, Q, st), LAMBDA c : Enabled(st, c)))
  IN [i \in DOMAIN R |-> Answer(R[i])]

Done == MODE = "bfs" \/ Len(hist) = L0 + DEPTH
(* the laws hold of the probes as well *)
LawsOf(ps) == \A i \in DOMAIN ps : Law(P, st, ps[i], st, Append(hist, ps[i]))
Dump == Done => LET ps == TLCEval(FinalProbes) IN
                /\ Assert(LawsOf(ps), <<"a law fails on a probe", SelectSeq(ps, LAMBDA x : ~Law(P, st, x, st, Append(hist, x)))>>)
                /\ CSVWrite("%1$s", <<ToJson([h |-> hist, p |-> ps])>>, OUT)

Laws == Len(hist) > L0 => Law(P, prev, LastOf(hist), st, hist)

Spec == Init /\ [][Next]_<<st, hist, prev>>
=============================================================================
