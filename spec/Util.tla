-------------------------------- MODULE Util --------------------------------
(* Helpers that say nothing about yisp: text, paths, ordering and integers.  *)
(* TLC's strings support Len, SubSeq, \o and =; its integers have 32 bits.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

(* a function on 1..n as the tuple it is; TLC otherwise computes an entry      *)
(* again whenever it is looked at                                            *)
Tup(f) == f \o <<>>

(* TLC looks a name up through everything under evaluation, so that deep      *)
(* recursion is slow.  A constant function is evaluated by itself; those     *)
(* named ...F exist for that reason only: NameF[<<x, y>>] is Name(x, y).     *)
(* (TLC takes a parameter for a variable of that name here, so the names of   *)
(* variables are used for nothing else.)                                     *)

------------------------------------------------------------------ (* text *)
Ch(s, i) == SubSeq(s, i, i)
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Upto(s, i) == IF i < 1 THEN "" ELSE SubSeq(s, 1, i)
StartsWith(s, p) == Len(p) <= Len(s) /\ Upto(s, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ From(s, Len(s) - Len(p) + 1) = p

(* first position >= i at which p occurs in s, 0 if none (p nonempty) *)
RECURSIVE FindAt(_, _, _)
FindAt(s, p, i) ==
  IF i + Len(p) - 1 > Len(s) THEN 0
  ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i
  ELSE FindAt(s, p, i + 1)

FindF == [a \in Any |-> FindAt(a[1], a[2], 1)]
HasText(s, p) == p = "" \/ FindF[<<s, p>>] # 0

(* the characters of a text: TLC counts UTF-16 units, so the astral          *)
(* characters a case may contain are listed here and taken as one            *)
Astral == {"😀", "𝔘", "🎉"}
RECURSIVE CharsR(_, _, _)
CharsR(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF i < Len(s) /\ SubSeq(s, i, i + 1) \in Astral
       THEN CharsR(s, i + 2, Append(acc, SubSeq(s, i, i + 1)))
       ELSE CharsR(s, i + 1, Append(acc, Ch(s, i)))
CharsF == [a \in Any |-> CharsR(a[1], 1, <<>>)]
Chars(s) == CharsF[<<s>>]
CharLen(s) == Len(Chars(s))

RECURSIVE SplitR(_, _, _, _, _)
SplitR(s, sep, i, left, acc) ==   \* left < 0: no limit on the number of cuts
  LET p == IF left = 0 THEN 0 ELSE FindAt(s, sep, i) IN
  IF p = 0 THEN Append(acc, From(s, i))
  ELSE SplitR(s, sep, p + Len(sep), left - 1, Append(acc, SubSeq(s, i, p - 1)))
SplitF == [a \in Any |-> SplitR(a[1], a[2], 1, -1, <<>>)]
Split(s, sep) == IF sep = "" THEN Chars(s) ELSE SplitF[<<s, sep>>]

RECURSIVE JoinR(_, _, _, _)
JoinR(ss, sep, i, acc) ==
  IF i > Len(ss) THEN acc
  ELSE JoinR(ss, sep, i + 1, IF i = 1 THEN ss[1] ELSE acc \o sep \o ss[i])
JoinF == [a \in Any |-> JoinR(a[1], a[2], 1, "")]
Join(ss, sep) == JoinF[<<ss, sep>>]

(* replace the first n occurrences (all if n < 0); an empty old text occurs  *)
(* before every character and at the end                                     *)
Replace(s, old, new, n) ==
  IF n = 0 \/ old = new THEN s
  ELSE IF old # "" THEN Join(SplitR(s, old, 1, n, <<>>), new)
  ELSE LET cs == Chars(s)
           k == IF n < 0 \/ n > Len(cs) + 1 THEN Len(cs) + 1 ELSE n
       IN Join(Tup([i \in 1..(Len(cs) + 1) |->
                 (IF i <= k THEN new ELSE "") \o (IF i <= Len(cs) THEN cs[i] ELSE "")]), "")

Lower == "abcdefghijklmnopqrstuvwxyzéüñøабвгдежзийклмнопрстуфхцчшщъыьэюя"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZÉÜÑØАБВГДЕЖЗИЙКЛМНОПРСТУФХЦЧШЩЪЫЬЭЮЯ"
LowerSet == {Ch(Lower, i) : i \in 1..Len(Lower)}
UpperSet == {Ch(Upper, i) : i \in 1..Len(Upper)}
ToUpperF == [c \in LowerSet |-> Ch(Upper, CHOOSE i \in 1..Len(Lower) : Ch(Lower, i) = c)]
ToLowerF == [c \in UpperSet |-> Ch(Lower, CHOOSE i \in 1..Len(Upper) : Ch(Upper, i) = c)]
ToUpper(s) == LET cs == Chars(s) IN
  Join(Tup([i \in 1..Len(cs) |-> IF cs[i] \in LowerSet THEN ToUpperF[cs[i]] ELSE cs[i]]), "")
ToLower(s) == LET cs == Chars(s) IN
  Join(Tup([i \in 1..Len(cs) |-> IF cs[i] \in UpperSet THEN ToLowerF[cs[i]] ELSE cs[i]]), "")

Blank == {" ", "\t", "\n", "\r", "\f", " ", " ", "　"}
RECURSIVE TrimL(_)
TrimL(s) == IF s # "" /\ Ch(s, 1) \in Blank THEN TrimL(From(s, 2)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # "" /\ Ch(s, Len(s)) \in Blank THEN TrimR(Upto(s, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))

Escape1(c) == CASE c = "\"" -> "\\\"" [] c = "\\" -> "\\\\" [] c = "\n" -> "\\n"
                [] c = "\t" -> "\\t" [] c = "\r" -> "\\r" [] c = "\f" -> "\\f" [] OTHER -> c
Escape(s) == LET cs == Chars(s) IN Join(Tup([i \in 1..Len(cs) |-> Escape1(cs[i])]), "")

(* text order: by code point, over the characters cases are made of *)
Order == "\t\n\f\r !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~ ÉÑØÜéñøüАБВГДЕЖЗИЙКЛМНОПРСТУФХЦЧШЩЪЫЬЭЮЯабвгдежзийклмнопрстуфхцчшщъыьэюя 　あ日本語﻿𝔘😀🎉"
OrderSeq == Chars(Order)
Unprinted == {"　", " ", " ", "﻿"}
(* the text has only characters that are written as they are *)
Plainly(s) == LET cs == Chars(s) IN \A i \in 1..Len(cs) : cs[i] \notin Unprinted
OrderOf == [c \in {OrderSeq[i] : i \in 1..Len(OrderSeq)} |-> CHOOSE i \in 1..Len(OrderSeq) : OrderSeq[i] = c]
RECURSIVE LessR(_, _, _)
LessR(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] = b[i] THEN LessR(a, b, i + 1)
  ELSE OrderOf[a[i]] < OrderOf[b[i]]
LessF == [a \in Any |-> LessR(Chars(a[1]), Chars(a[2]), 1)]
StrLess(a, b) == LessF[<<a, b>>]

RECURSIVE SortR(_, _, _)
Insert(sorted, x, less(_, _)) ==
  LET n == Cardinality({i \in 1..Len(sorted) : ~less(x, sorted[i])})
  IN SubSeq(sorted, 1, n) \o <<x>> \o SubSeq(sorted, n + 1, Len(sorted))
SortR(seq, i, acc) == IF i > Len(seq) THEN acc
  ELSE SortR(seq, i + 1, Insert(acc, seq[i], StrLess))
SortText(seq) == SortR(seq, 1, <<>>)

(* a glob pattern without "/" against one path segment: '*' is any text,     *)
(* '?' any character                                                         *)
RECURSIVE GlobR(_, _, _, _)
GlobR(p, s, i, j) ==
  IF i > Len(p) THEN j > Len(s)
  ELSE IF p[i] = "*" THEN GlobR(p, s, i + 1, j) \/ (j <= Len(s) /\ GlobR(p, s, i, j + 1))
  ELSE j <= Len(s) /\ (p[i] = "?" \/ p[i] = s[j]) /\ GlobR(p, s, i + 1, j + 1)
GlobF == [a \in Any |-> GlobR(Chars(a[1]), Chars(a[2]), 1, 1)]
GlobMatch(p, s) == GlobF[<<p, s>>]

(* an allow-list entry: only '*' is special, and it also crosses "/" *)
RECURSIVE StarR(_, _, _, _)
StarR(p, s, i, j) ==
  IF i > Len(p) THEN j > Len(s)
  ELSE IF p[i] = "*" THEN StarR(p, s, i + 1, j) \/ (j <= Len(s) /\ StarR(p, s, i, j + 1))
  ELSE j <= Len(s) /\ p[i] = s[j] /\ StarR(p, s, i + 1, j + 1)
StarF == [a \in Any |-> StarR(Chars(a[1]), Chars(a[2]), 1, 1)]
StarMatch(p, s) == StarF[<<p, s>>]

----------------------------------------------------------------- (* paths *)
RECURSIVE CleanR(_, _, _)
CleanR(segs, i, acc) ==
  IF i > Len(segs) THEN acc
  ELSE IF segs[i] \in {"", "."} THEN CleanR(segs, i + 1, acc)
  ELSE IF segs[i] = ".." /\ acc # <<>> /\ acc[Len(acc)] # ".."
       THEN CleanR(segs, i + 1, SubSeq(acc, 1, Len(acc) - 1))
  ELSE CleanR(segs, i + 1, Append(acc, segs[i]))
CleanF == [a \in Any |-> CleanR(Split(a[1], "/"), 1, <<>>)]
CleanSegs(p) == CleanF[<<p>>]
Clean(p) == Join(CleanSegs(p), "/")
Dir(p) == LET s == CleanSegs(p) IN Join(SubSeq(s, 1, Len(s) - 1), "/")
Base(p) == LET s == CleanSegs(p) IN IF s = <<>> THEN "" ELSE s[Len(s)]
PathJoin(d, p) == Clean(d \o "/" \o p)
RECURSIVE LastDot(_, _)
LastDot(s, i) == IF i = 0 THEN 0 ELSE IF Ch(s, i) = "." THEN i ELSE LastDot(s, i - 1)
Ext(p) == LET b == Base(p) IN LET i == LastDot(b, Len(b)) IN IF i = 0 THEN "" ELSE From(b, i)

(* web addresses: a reference in the source at base *)
IsUrl(p) == HasText(p, "://")
Query(p) == IF HasText(p, "?") THEN "?" \o Join(Tail(Split(p, "?")), "?") ELSE ""
NoQuery(p) == Split(p, "?")[1]
UrlAt(host, segs, p) == Join(host \o CleanR(segs \o Split(NoQuery(p), "/"), 1, <<>>), "/") \o Query(p)
UrlRef(base, p) ==
  IF IsUrl(p) THEN LET s == Split(NoQuery(p), "/") IN UrlAt(SubSeq(s, 1, 3), SubSeq(s, 4, Len(s)), Query(p))
  ELSE LET s == Split(NoQuery(base), "/") IN
       UrlAt(SubSeq(s, 1, 3), IF StartsWith(p, "/") THEN <<>> ELSE SubSeq(s, 4, Len(s) - 1), p)
(* where a reference written in the file base leads                          *)
Target(base, p) == IF IsUrl(base) \/ IsUrl(p) THEN UrlRef(base, p) ELSE PathJoin(Dir(base), p)
SameSource(base, p) == Clean(base) = PathJoin(Dir(base), p)

-------------------------------------------------------------- (* integers *)
(* Integers beyond 10^8 are <<sign, limbs>>, limbs base 10^4, lowest first.  *)
B == 10000
NatLimit == 100000000
RECURSIVE LimbsOf(_)
LimbsOf(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o LimbsOf(n \div B)
RECURSIVE StripL(_)
StripL(l) == IF l # <<>> /\ l[Len(l)] = 0 THEN StripL(SubSeq(l, 1, Len(l) - 1)) ELSE l
AbsN(n) == IF n < 0 THEN -n ELSE n
Limb(l, i) == IF i <= Len(l) THEN l[i] ELSE 0

RECURSIVE CmpL(_, _, _)
CmpL(a, b, i) == IF i = 0 THEN 0
  ELSE IF Limb(a, i) # Limb(b, i) THEN (IF Limb(a, i) < Limb(b, i) THEN -1 ELSE 1)
  ELSE CmpL(a, b, i - 1)
MaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
CmpLimbs(a, b) == CmpL(a, b, MaxLen(a, b))

RECURSIVE AddR(_, _, _, _, _)
AddR(a, b, i, carry, acc) ==
  IF i > MaxLen(a, b) THEN (IF carry = 0 THEN acc ELSE Append(acc, carry))
  ELSE LET t == Limb(a, i) + Limb(b, i) + carry
       IN AddR(a, b, i + 1, t \div B, Append(acc, t % B))
RECURSIVE SubR(_, _, _, _, _)
SubR(a, b, i, borrow, acc) ==            \* a >= b
  IF i > Len(a) THEN StripL(acc)
  ELSE LET t == Limb(a, i) - Limb(b, i) - borrow
       IN SubR(a, b, i + 1, IF t < 0 THEN 1 ELSE 0, Append(acc, IF t < 0 THEN t + B ELSE t))
RECURSIVE Mul1R(_, _, _, _, _)
Mul1R(a, d, i, carry, acc) ==
  IF i > Len(a) THEN (IF carry = 0 THEN acc ELSE Append(acc, carry))
  ELSE LET t == a[i] * d + carry IN Mul1R(a, d, i + 1, t \div B, Append(acc, t % B))
RECURSIVE MulR(_, _, _)
MulR(a, b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE StripL(AddR(Mul1R(a, b[i], 1, 0, <<>>), <<0>> \o MulR(a, b, i + 1), 1, 0, <<>>))
RECURSIVE Div1R(_, _, _, _, _)
Div1R(a, d, i, rem, acc) ==
  IF i = 0 THEN StripL(acc)
  ELSE LET t == rem * B + a[i] IN Div1R(a, d, i - 1, t % d, <<t \div d>> \o acc)

(* sign/limbs numbers *)
SL(n) == <<IF n < 0 THEN -1 ELSE 1, LimbsOf(AbsN(n))>>
SLNeg(x) == <<-x[1], x[2]>>
SLAdd(x, y) ==
  IF x[1] = y[1] THEN <<x[1], AddR(x[2], y[2], 1, 0, <<>>)>>
  ELSE IF CmpLimbs(x[2], y[2]) >= 0 THEN <<x[1], SubR(x[2], y[2], 1, 0, <<>>)>>
  ELSE <<y[1], SubR(y[2], x[2], 1, 0, <<>>)>>
SLMul(x, y) == <<x[1] * y[1], MulR(x[2], y[2], 1)>>
(* division truncates towards zero; |y| of one limb, otherwise long division *)
RECURSIVE LongDivR(_, _, _, _, _)
RECURSIVE QuotDigit(_, _, _)
QuotDigit(r, b, d) == IF CmpLimbs(r, b) < 0 THEN <<d, r>>
  ELSE QuotDigit(SubR(r, b, 1, 0, <<>>), b, d + 1)
RECURSIVE QuotBits(_, _, _, _)
QuotBits(r, b, k, d) ==  \* subtract b * 2^k while possible, k down to 0
  IF k < 0 THEN <<d, r>>
  ELSE LET bk == StripL(Mul1R(b, 2^k, 1, 0, <<>>)) IN
       IF CmpLimbs(r, bk) >= 0 THEN QuotBits(SubR(r, bk, 1, 0, <<>>), b, k - 1, d + 2^k)
       ELSE QuotBits(r, b, k - 1, d)
LongDivR(a, b, i, rem, acc) ==
  IF i = 0 THEN StripL(acc)
  ELSE LET q == QuotBits(StripL(<<a[i]>> \o rem), b, 13, 0)
       IN LongDivR(a, b, i - 1, q[2], <<q[1]>> \o acc)
SLDiv(x, y) == <<x[1] * y[1], LongDivR(x[2], y[2], Len(x[2]), <<>>, <<>>)>>
SLCmp(x, y) ==
  IF x[2] = <<>> /\ y[2] = <<>> THEN 0
  ELSE IF x[2] = <<>> THEN -y[1]
  ELSE IF y[2] = <<>> THEN x[1]
  ELSE IF x[1] # y[1] THEN x[1]
  ELSE x[1] * CmpLimbs(x[2], y[2])
MaxInt64 == <<5807, 5477, 368, 3372, 922>>    \* 9223372036854775807
MinInt64 == <<5808, 5477, 368, 3372, 922>>
InInt64(x) == IF x[1] > 0 THEN CmpLimbs(x[2], MaxInt64) <= 0 ELSE CmpLimbs(x[2], MinInt64) <= 0
RECURSIVE NatOf(_, _)
NatOf(l, i) == IF i > Len(l) THEN 0 ELSE l[i] + B * NatOf(l, i + 1)
SLSmall(x) == Len(x[2]) <= 2
SLInt(x) == x[1] * NatOf(x[2], 1)
Pad4(n) == IF n < 10 THEN "000" \o ToString(n) ELSE IF n < 100 THEN "00" \o ToString(n)
           ELSE IF n < 1000 THEN "0" \o ToString(n) ELSE ToString(n)
RECURSIVE DigitsR(_, _)
DigitsR(l, i) == IF i = 0 THEN "" ELSE (IF i = Len(l) THEN ToString(l[i]) ELSE Pad4(l[i])) \o DigitsR(l, i - 1)
SLText(x) == IF x[2] = <<>> THEN "0" ELSE (IF x[1] < 0 THEN "-" ELSE "") \o DigitsR(x[2], Len(x[2]))
=============================================================================
