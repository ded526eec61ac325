-------------------------------- MODULE Sizes --------------------------------
(***************************************************************************)
(* Human-readable sizes.  The grammar:                                     *)
(*    blank* number blank* [unit [suffix]] blank*                          *)
(* number: decimal, 0x hexadecimal, 0 / 0o octal, 0b binary, with '_'      *)
(* between digits, or a decimal fraction; unit: one of kmgtpe, upper or    *)
(* lower case; suffix: "iB" (or "ib", "B", "b") for the binary getters,    *)
(* "B" (or "b") for the decimal ones.                                      *)
(* Numbers of bytes exceed TLC's integers: they are sequences of decimal   *)
(* digits, the least significant first.                                    *)
(***************************************************************************)
EXTENDS StoreCore

-----------------------------------------------------------------------------
(* natural numbers as digits *)
RECURSIVE MulAdd(_, _, _)
MulAdd(ds, m, carry) ==
  IF ds = <<>> THEN (IF carry = 0 THEN <<>> ELSE <<carry % 10>> \o MulAdd(<<>>, m, carry \div 10))
  ELSE LET x == Head(ds) * m + carry IN <<x % 10>> \o MulAdd(Tail(ds), m, x \div 10)
RECURSIVE MulTimes(_, _, _)
MulTimes(ds, m, n) == IF n = 0 THEN ds ELSE MulTimes(MulAdd(ds, m, 0), m, n - 1)
RECURSIVE Norm0(_)
Norm0(ds) == IF ds # <<>> /\ LastOf(ds) = 0 THEN Norm0(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds
RECURSIVE Show(_)
Show(ds) == IF ds = <<>> THEN "" ELSE Show(Tail(ds)) \o ToString(Head(ds))
ShowN(ds) == IF Norm0(ds) = <<>> THEN "0" ELSE Show(Norm0(ds))
(* less than 2^64, from the number of digits *)
Fits(ds) == Len(Norm0(ds)) < 20

-----------------------------------------------------------------------------
(* reading *)
DigitOf(ch) ==
  CASE ch = "0" -> 0 [] ch = "1" -> 1 [] ch = "2" -> 2 [] ch = "3" -> 3 [] ch = "4" -> 4 [] ch = "5" -> 5 [] ch = "6" -> 6
    [] ch = "7" -> 7 [] ch = "8" -> 8 [] ch = "9" -> 9 [] ch \in {"a", "A"} -> 10 [] ch \in {"b", "B"} -> 11
    [] ch \in {"c", "C"} -> 12 [] ch \in {"d", "D"} -> 13 [] ch \in {"e", "E"} -> 14 [] ch \in {"f", "F"} -> 15 [] OTHER -> 99
RECURSIVE InBase(_, _, _)       \* digits of s in base b, accumulated
InBase(s, b, acc) == IF s = "" THEN acc
                     ELSE IF SubSeq(s, 1, 1) = "_" THEN InBase(DropN(s, 1), b, acc)
                     ELSE InBase(DropN(s, 1), b, MulAdd(acc, b, DigitOf(SubSeq(s, 1, 1))))
AllDigits(s, b) == /\ s # "" /\ ~StartsWith(s, "_") /\ ~EndsWith(s, "_")
                   /\ \A i \in 1..Len(s) : LET x == SubSeq(s, i, i) IN
                        IF x = "_" THEN SubSeq(s, i + 1, i + 1) # "_" ELSE DigitOf(x) < b
RECURSIVE TrimL(_)
TrimL(s) == IF StartsWith(s, " ") THEN TrimL(DropN(s, 1)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF EndsWith(s, " ") THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
TrimB(s) == TrimL(TrimR(s))

Bad == [ok |-> FALSE, ds |-> <<>>, sh |-> 0]
Good(ds, sh) == [ok |-> TRUE, ds |-> ds, sh |-> sh]
(* sh: how many of the digits are behind the decimal point *)
Number(s) ==
  LET dot == IndexFrom(s, ".", 1)
      pre == IF Len(s) >= 2 THEN SubSeq(s, 1, 2) ELSE "" IN
  IF dot <= Len(s)
  THEN LET a == SubSeq(s, 1, dot - 1)  b == SubSeq(s, dot + 1, Len(s)) IN
       IF AllDigits(a, 10) /\ AllDigits(b, 10) /\ ~HasChar(s, "_") THEN Good(InBase(a \o b, 10, <<>>), Len(b)) ELSE Bad
  ELSE IF pre \in {"0x", "0X"} THEN (IF AllDigits(DropN(s, 2), 16) THEN Good(InBase(DropN(s, 2), 16, <<>>), 0) ELSE Bad)
  ELSE IF pre \in {"0o", "0O"} THEN (IF AllDigits(DropN(s, 2), 8) THEN Good(InBase(DropN(s, 2), 8, <<>>), 0) ELSE Bad)
  ELSE IF pre \in {"0b", "0B"} THEN (IF AllDigits(DropN(s, 2), 2) THEN Good(InBase(DropN(s, 2), 2, <<>>), 0) ELSE Bad)
  ELSE IF StartsWith(s, "0") THEN (IF AllDigits(s, 8) THEN Good(InBase(s, 8, <<>>), 0) ELSE Bad)
  ELSE IF AllDigits(s, 10) THEN Good(InBase(s, 10, <<>>), 0) ELSE Bad

Units == << {"k", "K"}, {"m", "M"}, {"g", "G"}, {"t", "T"}, {"p", "P"}, {"e", "E"} >>
ExpOf(u) == IF u = "" THEN 0 ELSE CHOOSE i \in 1..6 : u \in Units[i]
UnitChars == UNION {Units[i] : i \in 1..6}
(* the readings of a text as <<number, exponent>>: a hexadecimal number may end in a letter
   that could as well be a unit or suffix; then the text is ambiguous *)
Readings(s, kibi) ==
  LET t == TrimB(s)
      sufs == IF kibi THEN {"", "iB", "ib", "B", "b"} ELSE {"", "B", "b"}
      lastIs(x, S) == Len(x) > 0 /\ SubSeq(x, Len(x), Len(x)) \in S
  IN {x \in UNION {LET r == SubSeq(t, 1, Len(t) - Len(f)) IN
            (IF lastIs(r, UnitChars) THEN {<<Number(TrimR(SubSeq(r, 1, Len(r) - 1))), ExpOf(SubSeq(r, Len(r), Len(r)))>>} ELSE {})
            \cup (IF f \in {"", "B", "b"} THEN {<<Number(TrimR(r)), 0>>} ELSE {})
          : f \in {g \in sufs : EndsWith(t, g)}} : x[1].ok}

(* divisible by 10^n: drop n zeros *)
RECURSIVE DropZ(_, _)
DropZ(ds, n) == IF n = 0 THEN ds ELSE IF ds # <<>> /\ Head(ds) = 0 THEN DropZ(Tail(ds), n - 1) ELSE <<-1>>
(* the number of bytes: "" if it is not defined *)
Bytes(s, kibi) ==
  LET R == Readings(s, kibi) IN
  IF Cardinality(R) # 1 THEN ""
  ELSE LET x == CHOOSE y \in R : TRUE
           n == MulTimes(x[1].ds, IF kibi THEN 1024 ELSE 1000, x[2])
       IN IF ~Fits(n) THEN ""
          ELSE IF x[1].sh = 0 THEN ShowN(n)
          ELSE LET z == DropZ(n, x[1].sh) IN IF z = <<-1>> THEN "" ELSE ShowN(z)

(* ty: "KibiBytes" or "KiloBytes"; b: a default is given (df) *)
DoSize(st, c) ==
  LET V == st.views[c.h]  kv == KV(st, c.h)  k == Resolve(V, DOMAIN kv, c.p)
      v == IF k \in DOMAIN kv THEN kv[k].v ELSE "nil"
      d == IF c.b THEN c.df ELSE "0"
      text == IF StartsWith(v, "s:") \/ StartsWith(v, "i:") THEN DropN(v, 2) ELSE ""
      n == Bytes(text, c.ty = "KibiBytes")
  IN [s |-> st, r |->
       IF k = "" THEN [v |-> d, e |-> TRUE]
       ELSE IF v = "s:" THEN [v |-> d, e |-> FALSE]
       ELSE IF text # "" /\ n # "" THEN [v |-> n, e |-> FALSE]
       ELSE [skip |-> TRUE]]
=============================================================================
