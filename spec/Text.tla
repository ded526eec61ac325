-------------------------------- MODULE Text --------------------------------
(* Operators on native TLC strings (only Len, SubSeq and \o are built in).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p)   == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
DropN(s, n)      == SubSeq(s, n + 1, Len(s))
TrimPre(s, p)    == IF StartsWith(s, p) THEN DropN(s, Len(p)) ELSE s
TrimSuf(s, p)    == IF EndsWith(s, p) THEN SubSeq(s, 1, Len(s) - Len(p)) ELSE s

(* position of the first d in s at or after i; Len(s)+1 if there is none *)
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, d, i) ==
  IF i + Len(d) - 1 > Len(s) THEN Len(s) + 1
  ELSE IF SubSeq(s, i, i + Len(d) - 1) = d THEN i
  ELSE IndexFrom(s, d, i + 1)

RECURSIVE Split(_, _)
Split(s, d) ==
  LET i == IndexFrom(s, d, 1) IN
  IF i > Len(s) THEN <<s>>
  ELSE <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + Len(d), Len(s)), d)

(* joining with a delimiter skips empty parts *)
Join2(a, b, d) == IF a = "" THEN b ELSE IF b = "" THEN a ELSE a \o d \o b

RECURSIVE JoinAll(_, _)
JoinAll(ss, d) == IF ss = <<>> THEN "" ELSE Join2(Head(ss), JoinAll(Tail(ss), d), d)

(* joined with underscores, empty parts included *)
RECURSIVE JoinU(_)
JoinU(ss) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o "_" \o JoinU(Tail(ss))

LastOf(seq) == seq[Len(seq)]

(* characters of a string as a sequence of one-character strings *)
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Image(f) == {f[x] : x \in DOMAIN f}
EmptyFn == [x \in {} |-> x]

(* the sequence t is a proper extension of the sequence s *)
ProperExt(t, s) == Len(s) < Len(t) /\ SubSeq(t, 1, Len(s)) = s

HasChar(s, c) == \E i \in 1..Len(s) : SubSeq(s, i, i) = c

(* every \a in s replaced by \b (both one character) *)
RECURSIVE Subst(_, _, _)
Subst(s, a, b) ==
  IF s = "" THEN "" ELSE
  (IF SubSeq(s, 1, 1) = a THEN b ELSE SubSeq(s, 1, 1)) \o Subst(DropN(s, 1), a, b)
=============================================================================
