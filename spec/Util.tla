-------------------------------- MODULE Util --------------------------------
(* Operators shared by the specifications.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Range2(s) == {s[i] : i \in DOMAIN s}

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

(* sum of f[x] for x in the set S *)
SumOver(f, S) == FoldSet(LAMBDA x, a : f[x] + a, 0, S)

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a

DropN(s, n) == SubSeq(s, n + 1, Len(s))
TakeN(s, n) == SubSeq(s, 1, n)

NoDup(s) == Cardinality(Range2(s)) = Len(s)

RemoveElem(s, x) == SelectSeq(s, LAMBDA y : y # x)

(* Restriction of a function, and a function with one more point *)
Only(f, S) == [x \in (DOMAIN f) \cap S |-> f[x]]
With(f, x, v) == [y \in (DOMAIN f) \cup {x} |-> IF y = x THEN v ELSE f[y]]
Empty == [x \in {} |-> 0]

(* a * b / c without leaving 32 bits when a * b would *)
MulDiv(a, b, c) == (a \div c) * b + ((a % c) * b) \div c

(* The integer part of 10^k * a / b, for b > 0, without leaving 32 bits; what is out of range is cut off *)
RECURSIVE Digits(_, _, _)
Digits(r, b, k) == IF k = 0 THEN 0 ELSE ((10 * r) \div b) * (10 ^ (k - 1)) + Digits((10 * r) % b, b, k - 1)
RECURSIVE Ratio(_, _, _)
Ratio(a, b, k) ==
    IF b > 200000000 THEN Ratio(a \div 16, b \div 16, k)
    ELSE LET q == a \div b IN
         IF q >= 2000000000 \div (10 ^ k) THEN 2000000000
         ELSE IF q < -(2000000000 \div (10 ^ k)) THEN -2000000000
         ELSE q * (10 ^ k) + Digits(a % b, b, k)
Close(x, y, d) == x <= y + d /\ y <= x + d

NaN == -1000000000
=============================================================================
