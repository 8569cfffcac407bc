------------------------------- MODULE Values -------------------------------
(* The data of yisp.  A value is <<kind, payload, type>>:                     *)
(*   null, bool, int (|n| < 10^8), big (<<sign, limbs>>), float (quarters),   *)
(*   flt (any other float, by its canonical text), str (4th: origin file),    *)
(*   list, docs (a list of documents), map (<<key, value>> pairs in order),   *)
(*   lam (<<params, body, frame, file, returns>>), type (a schema, as a map), *)
(*   mod (the frame of an imported file), ytext (YAML text for a value).      *)
(* type is <<"none">> or <<"sch", schema>>.                                   *)
EXTENDS Util

NoType == <<"none">>
V(k, p) == <<k, p, NoType>>
Null == V("null", 0)
Bool(b) == V("bool", b)
IntV(n) == V("int", n)
Str(s) == <<"str", s, NoType, "">>
StrAt(s, file) == <<"str", s, NoType, file>>
List(l) == V("list", l)
Docs(l) == V("docs", l)
Map(ps) == V("map", ps)
WithType(v, t) == [v EXCEPT ![3] = t]

IsList(v) == v[1] \in {"list", "docs"}
IsInt(v) == v[1] \in {"int", "big"}
IsFloat(v) == v[1] \in {"float", "flt"}
IsNum(v) == IsInt(v) \/ IsFloat(v)
IsStr(v) == v[1] \in {"str", "ytext"}

(* integers of any size *)
AsSL(v) == IF v[1] = "big" THEN v[2] ELSE SL(v[2])
FromSL(x) == IF SLSmall(x) THEN IntV(SLInt(x)) ELSE V("big", x)

(* maps: setting an existing key keeps its position *)
HasKey(ps, k) == \E i \in DOMAIN ps : ps[i][1] = k
KeyAt(ps, k) == CHOOSE i \in DOMAIN ps : ps[i][1] = k
GetKey(ps, k) == ps[KeyAt(ps, k)][2]
SetKey(ps, k, v) == IF HasKey(ps, k) THEN [ps EXCEPT ![KeyAt(ps, k)] = <<k, v>>] ELSE Append(ps, <<k, v>>)
DelKey(ps, k) == LET i == IF HasKey(ps, k) THEN KeyAt(ps, k) ELSE 0 IN
  SubSeq(ps, 1, i - 1) \o SubSeq(ps, i + 1, Len(ps))
RECURSIVE SetAllR(_, _, _)
SetAllR(ps, qs, i) == IF i > Len(qs) THEN ps ELSE SetAllR(SetKey(ps, qs[i][1], qs[i][2]), qs, i + 1)
SetAllF == [a \in Any |-> SetAllR(a[1], a[2], 1)]
SetAll(ps, qs) == SetAllF[<<ps, qs>>]

(* what counts as true: <<"ok", b>>, or <<"err">> for a module *)
Truthy(v) == CASE v[1] = "null" -> FALSE
               [] v[1] = "bool" -> v[2]
               [] v[1] \in {"int", "float"} -> v[2] # 0
               [] v[1] \in {"str"} -> v[2] # ""
               [] v[1] \in {"list", "docs", "map"} -> Len(v[2]) # 0
               [] OTHER -> TRUE

(* numeric order of two numbers: -1, 0, 1; 2 if one is a float TLC has no    *)
(* exact representation for                                                  *)
NumCmp(a, b) ==
  IF a[1] = "flt" \/ b[1] = "flt" THEN 2
  ELSE IF a[1] = "big" \/ b[1] = "big" THEN
       IF IsFloat(a) THEN -(b[2][1]) ELSE IF IsFloat(b) THEN a[2][1] ELSE SLCmp(AsSL(a), AsSL(b))
  ELSE LET x == IF a[1] = "float" THEN a[2] ELSE 4 * a[2]
           y == IF b[1] = "float" THEN b[2] ELSE 4 * b[2]
       IN IF x < y THEN -1 ELSE IF x = y THEN 0 ELSE 1

(* equality of data: "t", "f", or "u" where the specification says nothing   *)
(* (functions, types, floats it cannot represent)                            *)
And3(a, b) == IF a = "f" \/ b = "f" THEN "f" ELSE IF a = "u" \/ b = "u" THEN "u" ELSE "t"
B3(b) == IF b THEN "t" ELSE "f"
RECURSIVE Eq(_, _)
RECURSIVE EqListR(_, _, _)
RECURSIVE EqMapR(_, _, _)
EqListR(a, b, i) == IF i > Len(a) THEN "t" ELSE And3(Eq(a[i], b[i]), EqListR(a, b, i + 1))
EqMapR(a, b, i) == IF i > Len(a) THEN "t"
  ELSE IF ~HasKey(b, a[i][1]) THEN "f"
  ELSE And3(Eq(a[i][2], GetKey(b, a[i][1])), EqMapR(a, b, i + 1))
Eq(a, b) ==
  IF IsNum(a) /\ IsNum(b) THEN
     IF a[1] = "flt" /\ b[1] = "flt" THEN B3(a[2] = b[2] /\ a[2] # ".nan")
     ELSE IF a[1] = "flt" \/ b[1] = "flt" THEN
          LET f == IF a[1] = "flt" THEN a ELSE b
              g == IF a[1] = "flt" THEN b ELSE a
          IN IF f[2] \in {".inf", "-.inf", ".nan"} \/ g[1] # "big" THEN "f" ELSE "u"
     ELSE B3(NumCmp(a, b) = 0)
  ELSE IF IsList(a) /\ IsList(b) THEN
     IF Len(a[2]) # Len(b[2]) THEN "f" ELSE EqListR(a[2], b[2], 1)
  ELSE IF a[1] = "map" /\ b[1] = "map" THEN
     IF Len(a[2]) # Len(b[2]) THEN "f" ELSE EqMapR(a[2], b[2], 1)
  ELSE IF a[1] = "ytext" \/ b[1] = "ytext" THEN (IF IsStr(a) /\ IsStr(b) THEN "u" ELSE "f")
  ELSE IF a[1] # b[1] THEN "f"
  ELSE CASE a[1] = "null" -> "t"
         [] a[1] \in {"bool", "str"} -> B3(a[2] = b[2])
         [] OTHER -> "u"

-------------------------------------------------------------- (* projection *)
(* What a value looks like in the output.  Functions and types are not data  *)
(* and are left out, unless special objects are rendered.                    *)
Special == {"lam", "type"}
RECURSIVE SpecialNames(_, _)
SpecialNames(ps, i) == IF i > Len(ps) THEN "" ELSE
  (IF i > 1 THEN "," ELSE "") \o ps[i][1] \o SpecialNames(ps, i + 1)
SpecialText(v) == IF v[1] = "lam" THEN "λ" \o SpecialNames(v[2][1], 1) ELSE "(type)"
RECURSIVE ProjR(_, _)
RECURSIVE ProjList(_, _, _, _)
RECURSIVE ProjMap(_, _, _, _)
ProjList(l, sp, i, acc) == IF i > Len(l) THEN acc
  ELSE IF l[i][1] \in Special /\ ~sp THEN ProjList(l, sp, i + 1, acc)
  ELSE ProjList(l, sp, i + 1, Append(acc, ProjR(l[i], sp)))
ProjMap(ps, sp, i, acc) == IF i > Len(ps) THEN acc
  ELSE IF ps[i][2][1] \in Special /\ ~sp THEN ProjMap(ps, sp, i + 1, acc)
  ELSE ProjMap(ps, sp, i + 1, Append(acc, <<ps[i][1], ProjR(ps[i][2], sp)>>))
ProjR(v, sp) ==
  CASE IsList(v) -> <<"list", ProjList(v[2], sp, 1, <<>>)>>
    [] v[1] = "map" -> <<"map", ProjMap(v[2], sp, 1, <<>>)>>
    [] v[1] \in Special -> <<"str", SpecialText(v)>>
    [] OTHER -> <<v[1], v[2]>>
Proj(v) == ProjR(v, FALSE)

(* does a value contain something of one of these kinds? *)
RECURSIVE HasKind(_, _)
HasKind(v, ks) == \/ v[1] \in ks
                  \/ IsList(v) /\ \E i \in 1..Len(v[2]) : HasKind(v[2][i], ks)
                  \/ v[1] = "map" /\ \E i \in 1..Len(v[2]) : HasKind(v[2][i][2], ks)

(* a projected value as it comes back from JSON or YAML data: keys sorted *)
RECURSIVE SortPairsR(_, _, _)
PairLess(x, y) == StrLess(x[1], y[1])
InsertPair(sorted, x) ==
  LET n == Cardinality({i \in 1..Len(sorted) : ~PairLess(x, sorted[i])})
  IN SubSeq(sorted, 1, n) \o <<x>> \o SubSeq(sorted, n + 1, Len(sorted))
SortPairsR(ps, i, acc) == IF i > Len(ps) THEN acc ELSE SortPairsR(ps, i + 1, InsertPair(acc, ps[i]))
SortPairsF == [a \in Any |-> SortPairsR(a[1], 1, <<>>)]
SortPairs(ps) == SortPairsF[<<ps>>]
(* projected value -> value (maps sorted by key) *)
RECURSIVE OfData(_, _)
OfData(d, file) ==
  CASE d[1] = "list" -> List(Tup([i \in 1..Len(d[2]) |-> OfData(d[2][i], file)]))
    [] d[1] = "map" -> Map(SortPairs(Tup([i \in 1..Len(d[2]) |-> <<d[2][i][1], OfData(d[2][i][2], file)>>])))
    [] d[1] = "str" -> StrAt(d[2], file)
    [] OTHER -> V(d[1], d[2])
(* the same, keeping the given order (the harness has already sorted) *)
RECURSIVE OfTree(_, _)
OfTree(d, file) ==
  CASE d[1] = "list" -> List(Tup([i \in 1..Len(d[2]) |-> OfTree(d[2][i], file)]))
    [] d[1] = "map" -> Map(Tup([i \in 1..Len(d[2]) |-> <<d[2][i][1], OfTree(d[2][i][2], file)>>]))
    [] d[1] = "str" -> StrAt(d[2], file)
    [] OTHER -> V(d[1], d[2])
=============================================================================
