-------------------------------- MODULE Yisp --------------------------------
(* The language: what an expression yields, what it binds and what it runs.  *)
(*                                                                           *)
(* An expression is <<kind, tag, anchor, payload>> as parsed from a file:    *)
(*   kind  null bool int big float flt str seq map sym bad                   *)
(*   tag   "" | "!quote" | "!yisp" | the name of a type                      *)
(*   map payload: <<key, expression>> pairs, the merge key being "<<"        *)
(*   sym payload: <<name, optional?>> segments                               *)
(*   bad: a scalar whose explicit type does not fit its text                 *)
(*                                                                           *)
(* The state of an evaluation is a record                                    *)
(*   fr   frames: [p |-> enclosing frame or 0, v |-> name -> value]          *)
(*   log  the external programs run so far, in order                         *)
(*   cf   the times the user will still say yes                              *)
(*   used the addresses of schemas looked up so far, in order                *)
(* and every operator below returns [s, v, st]: s is "ok", "err", or "any"   *)
(* where the specification is silent (v then is whatever the code does).     *)
(* With "err", v is what the report has to name, if it is known (ErrAt).     *)
(*                                                                           *)
(* The context c (fixed during an evaluation) holds the files, the schemas,  *)
(* the options and the tables of external functions.                         *)
EXTENDS Merge, JsonPatch

R(s, v, st) == [s |-> s, v |-> v, st |-> st]
OkR(v, st) == R("ok", v, st)
ErrR(st) == R("err", Null, st)
AnyR(st) == R("any", Null, st)
(* an error about something written in a source: the file and the text there *)
ErrAt(file, text, st) == R("err", <<"at", file, text>>, st)
Of(r, st) == CASE r[1] = "ok" -> OkR(r[2], st) [] r[1] = "err" -> ErrR(st) [] OTHER -> AnyR(st)

---------------------------------------------------------------- (* scoping *)
TypeV(t) == V("type", Map(<<<<"type", Str(t)>>>>))
BuiltinTypes == [null |-> TypeV("null"), bool |-> TypeV("boolean"), int |-> TypeV("integer"),
                 float |-> TypeV("float"), string |-> TypeV("string")]
(* fr: frames, log: programs run, cf: confirmations left on the terminal *)
NewState == [fr |-> <<[p |-> 0, v |-> BuiltinTypes]>>, log |-> <<>>, cf |-> 0, used |-> <<>>]
AddFrame(st, p, vars) == [st EXCEPT !.fr = Append(st.fr, [p |-> p, v |-> vars])]
RECURSIVE Root(_, _)
Root(fr, e) == IF fr[e].p = 0 THEN e ELSE Root(fr, fr[e].p)
Bind(st, e, name, v) == [st EXCEPT !.fr = [st.fr EXCEPT ![e] = [p |-> st.fr[e].p, v |-> (name :> v) @@ st.fr[e].v]]]

(* <<"ok", value>> or <<"err">> *)
RECURSIVE Select(_, _, _, _)
Select(fr, v, segs, i) ==
  IF i > Len(segs) THEN <<"ok", v>>
  ELSE LET k == segs[i][1] IN
  IF v[1] = "mod" THEN
     IF k \in DOMAIN fr[v[2]].v THEN Select(fr, fr[v[2]].v[k], segs, i + 1)
     ELSE IF segs[i][2] THEN <<"ok", Null>> ELSE <<"err">>
  ELSE IF v[1] = "map" THEN
     IF HasKey(v[2], k) THEN Select(fr, GetKey(v[2], k), segs, i + 1)
     ELSE IF segs[i][2] THEN <<"ok", Null>> ELSE <<"err">>
  ELSE <<"err">>
RECURSIVE Lookup(_, _, _)
Lookup(fr, e, segs) ==
  IF e = 0 THEN (IF segs[1][2] THEN <<"ok", Null>> ELSE <<"err">>)
  ELSE IF segs[1][1] \in DOMAIN fr[e].v THEN Select(fr, fr[e].v[segs[1][1]], segs, 2)
  ELSE Lookup(fr, fr[e].p, segs)
NameSegs(t) == LET p == Split(t, ".") IN
  Tup([i \in 1..Len(p) |-> IF p[i] # "" /\ EndsWith(p[i], "?") THEN <<Upto(p[i], Len(p[i]) - 1), TRUE>> ELSE <<p[i], FALSE>>])
(* the type a tag names: <<"ok", schema>>, <<"none">> if not bound to a type *)
TagType(fr, e, tag) == LET r == Lookup(fr, e, NameSegs(tag)) IN
  IF r[1] = "ok" /\ r[2][1] = "type" THEN <<"ok", r[2][2]>> ELSE <<"none">>

------------------------------------------------------------------ (* files *)
(* a file as named in a source: relative to the file the name is written in  *)
FileExists(c, p) == p \in DOMAIN c.files
IsDir(c, p) == ~IsUrl(p) /\ \E f \in DOMAIN c.files : StartsWith(f, IF p = "" THEN "" ELSE p \o "/")
WithIndex(c, p) == IF ~FileExists(c, p) /\ IsDir(c, p) THEN PathJoin(p, "index.yisp") ELSE p
HasGlob(t) == HasText(t, "*") \/ HasText(t, "?")
Odd(t) == HasText(t, "[") \/ HasText(t, "{") \/ HasText(t, "**") \/ HasText(t, "\\") \/ t = ""
SegLess(a, b) == LET x == Split(a, "/") y == Split(b, "/")
                     d == {i \in 1..Len(x) : i <= Len(y) /\ x[i] # y[i]}
                 IN d # {} /\ LET m == CHOOSE i \in d : \A j \in d : i <= j IN StrLess(x[m], y[m])
InsertSeg(sorted, x) == LET n == Cardinality({i \in 1..Len(sorted) : ~SegLess(x, sorted[i])})
  IN SubSeq(sorted, 1, n) \o <<x>> \o SubSeq(sorted, n + 1, Len(sorted))
RECURSIVE SortPaths(_, _)
SortPaths(S, acc) == IF S = {} THEN acc
  ELSE LET x == CHOOSE y \in S : TRUE IN SortPaths(S \ {x}, InsertSeg(acc, x))
PatMatch(pat, p) == LET a == Split(pat, "/") b == Split(p, "/") IN
  Len(a) = Len(b) /\ \A i \in 1..Len(a) : GlobMatch(a[i], b[i])
(* every file (and, if dirs, directory) below d that matches, relative to d  *)
Below(c, d, dirs) ==
  LET pre == IF d = "" THEN "" ELSE d \o "/"
      rel == {From(f, Len(pre) + 1) : f \in {g \in DOMAIN c.files : StartsWith(g, pre) /\ ~IsUrl(g)}}
      ups == UNION {LET s == Split(f, "/") IN {Join(SubSeq(s, 1, i), "/") : i \in 1..(Len(s) - 1)} : f \in rel}
  IN rel \cup (IF dirs THEN ups ELSE {})
GlobFiles(c, d, pat, dirs) == SortPaths({p \in Below(c, d, dirs) : PatMatch(pat, p)}, <<>>)
CutDot(p) == IF StartsWith(p, "./") THEN From(p, 3) ELSE p

----------------------------------------------------------- (* arithmetic &c *)
Checked(x) == IF InInt64(x) THEN <<"ok", FromSL(x)>> ELSE <<"any">>
Small(v) == v[1] = "int"
Arith(op, a, b) ==
  CASE op = "+" -> IF Small(a) /\ Small(b) THEN <<"ok", FromSL(SL(a[2] + b[2]))>> ELSE Checked(SLAdd(AsSL(a), AsSL(b)))
    [] op = "-" -> IF Small(a) /\ Small(b) THEN <<"ok", FromSL(SL(a[2] - b[2]))>> ELSE Checked(SLAdd(AsSL(a), SLNeg(AsSL(b))))
    [] op = "*" -> Checked(SLMul(AsSL(a), AsSL(b)))
    [] op = "/" -> IF b[1] = "int" /\ b[2] = 0 THEN <<"err">>
                   ELSE IF Small(a) /\ Small(b) THEN
                        <<"ok", IntV((IF (a[2] < 0) # (b[2] < 0) THEN -1 ELSE 1) * (AbsN(a[2]) \div AbsN(b[2])))>>
                   ELSE Checked(SLDiv(AsSL(a), AsSL(b)))
RECURSIVE ArithR(_, _, _, _)
ArithR(op, acc, vs, i) ==
  IF i > Len(vs) THEN <<"ok", acc>>
  ELSE IF ~IsInt(vs[i]) THEN <<"err">>
  ELSE LET r == Arith(op, acc, vs[i]) IN IF r[1] # "ok" THEN r ELSE ArithR(op, r[2], vs, i + 1)
ArithAll(op, vs) ==
  IF op \in {"+", "*"} THEN ArithR(op, IntV(IF op = "+" THEN 0 ELSE 1), vs, 1)
  ELSE IF vs = <<>> THEN <<"ok", IntV(0)>>
  ELSE IF ~IsInt(vs[1]) THEN <<"err">>
  ELSE ArithR(op, vs[1], vs, 2)

EqualP(vs, neg) ==
  IF Len(vs) # 2 THEN <<"err">>
  ELSE LET e == Eq(vs[1], vs[2]) IN
       IF e = "u" THEN <<"any">> ELSE <<"ok", Bool(IF neg THEN e = "f" ELSE e = "t")>>
Compare(vs, good) ==
  IF Len(vs) # 2 THEN <<"err">>
  ELSE IF ~IsNum(vs[1]) \/ ~IsNum(vs[2]) THEN <<"err">>
  ELSE LET o == NumCmp(vs[1], vs[2]) IN IF o = 2 THEN <<"any">> ELSE <<"ok", Bool(o \in good)>>
RECURSIVE Junct(_, _, _)
Junct(vs, i, stop) ==          \* the first operand that decides, or all of them
  IF i > Len(vs) THEN <<"ok", Bool(~stop)>>
  ELSE IF vs[i][1] = "mod" THEN <<"err">>
  ELSE IF Truthy(vs[i]) = stop THEN <<"ok", Bool(stop)>> ELSE Junct(vs, i + 1, stop)
RECURSIVE Coalesce(_, _)
Coalesce(vs, i) == IF i > Len(vs) THEN <<"ok", Null>>
  ELSE IF vs[i][1] # "null" THEN <<"ok", vs[i]>> ELSE Coalesce(vs, i + 1)

------------------------------------------------------------------- (* lists *)
RECURSIVE MemberR(_, _, _, _)
MemberR(l, x, i, u) == IF i > Len(l) THEN (IF u THEN <<"any">> ELSE <<"ok", Bool(FALSE)>>)
  ELSE LET e == Eq(l[i], x) IN
       IF e = "t" THEN <<"ok", Bool(TRUE)>> ELSE MemberR(l, x, i + 1, u \/ e = "u")
RECURSIVE Flat(_, _, _)
Flat1(v) == IF IsList(v) THEN v[2] ELSE <<v>>
RECURSIVE FlatItems(_, _, _)
FlatItems(l, i, acc) == IF i > Len(l) THEN acc ELSE FlatItems(l, i + 1, acc \o Flat1(l[i]))
Flat(vs, i, acc) == IF i > Len(vs) THEN acc
  ELSE Flat(vs, i + 1, acc \o (IF IsList(vs[i]) THEN FlatItems(vs[i][2], 1, <<>>) ELSE <<vs[i]>>))
RECURSIVE Concat(_, _, _)
Concat(vs, i, acc) == IF i > Len(vs) THEN acc ELSE Concat(vs, i + 1, acc \o Flat1(vs[i]))

------------------------------------------------------------------ (* strings *)
AllStr(vs) == \A i \in 1..Len(vs) : vs[i][1] = "str"
IsStrs(vs) == \A i \in 1..Len(vs) : IsStr(vs[i])
IntText(v) == IF v[1] = "int" THEN ToString(v[2]) ELSE SLText(v[2])
(* %s of a text, %d of an integer, %t of a boolean, %v of any of them, %% *)
RECURSIVE FormatR(_, _, _, _, _)
FormatR(f, i, args, k, acc) ==
  IF i > Len(f) THEN (IF k = Len(args) + 1 THEN <<"ok", acc>> ELSE <<"any">>)
  ELSE IF f[i] # "%" THEN FormatR(f, i + 1, args, k, acc \o f[i])
  ELSE IF i = Len(f) THEN <<"any">>
  ELSE IF f[i + 1] = "%" THEN FormatR(f, i + 2, args, k, acc \o "%")
  ELSE IF k > Len(args) THEN <<"any">>
  ELSE LET a == args[k] w == f[i + 1] IN
       IF a[1] = "str" /\ w \in {"s", "v"} THEN FormatR(f, i + 2, args, k + 1, acc \o a[2])
       ELSE IF IsInt(a) /\ w \in {"d", "v"} THEN FormatR(f, i + 2, args, k + 1, acc \o IntText(a))
       ELSE IF a[1] = "bool" /\ w \in {"t", "v"} THEN FormatR(f, i + 2, args, k + 1, acc \o (IF a[2] THEN "true" ELSE "false"))
       ELSE <<"any">>

(* the text operators: they need texts (and an integer count)                *)
TextOp(op, vs, c) ==
  LET n == Len(vs) IN
  CASE op = "strings.concat" ->
         IF ~IsStrs(vs) THEN <<"err">> ELSE IF ~AllStr(vs) THEN <<"any">>
         ELSE <<"ok", Str(Join(Tup([i \in 1..n |-> vs[i][2]]), ""))>>
    [] op = "strings.contains" ->
         IF n # 2 \/ ~IsStrs(vs) THEN <<"err">> ELSE IF ~AllStr(vs) THEN <<"any">>
         ELSE <<"ok", Bool(HasText(vs[1][2], vs[2][2]))>>
    [] op = "strings.quote" ->
         IF n # 1 THEN <<"err">>
         ELSE CASE vs[1][1] = "str" -> IF ~Plainly(vs[1][2]) THEN <<"any">> ELSE <<"ok", StrAt(Escape(vs[1][2]), vs[1][4])>>
                [] IsInt(vs[1]) -> <<"ok", Str(IntText(vs[1]))>>
                [] vs[1][1] = "bool" -> <<"ok", Str(IF vs[1][2] THEN "true" ELSE "false")>>
                [] OTHER -> <<"any">>
    [] op = "strings.format" ->
         IF n = 0 THEN <<"err">> ELSE IF ~IsStr(vs[1]) THEN <<"err">>
         ELSE IF vs[1][1] = "ytext" THEN <<"any">>
         ELSE LET r == FormatR(Chars(vs[1][2]), 1, Tail(vs), 1, "") IN
              IF r[1] = "ok" THEN <<"ok", StrAt(r[2], vs[1][4])>> ELSE r
    [] op = "strings.join" ->
         IF n # 2 THEN <<"err">> ELSE IF ~IsStr(vs[2]) \/ ~IsList(vs[1]) THEN <<"err">>
         ELSE IF ~IsStrs(vs[1][2]) THEN <<"err">>
         ELSE IF ~AllStr(vs[1][2]) \/ vs[2][1] # "str" THEN <<"any">>
         ELSE <<"ok", Str(Join(Tup([i \in 1..Len(vs[1][2]) |-> vs[1][2][i][2]]), vs[2][2]))>>
    [] op = "strings.replace" ->
         IF n < 3 THEN <<"err">> ELSE IF n > 4 THEN <<"any">>
         ELSE IF (n = 4 /\ ~IsInt(vs[4])) \/ ~IsStrs(SubSeq(vs, 1, 3)) THEN <<"err">>
         ELSE IF ~AllStr(SubSeq(vs, 1, 3)) \/ (n = 4 /\ vs[4][1] = "big") THEN <<"any">>
         ELSE <<"ok", Str(Replace(vs[1][2], vs[2][2], vs[3][2], IF n = 4 THEN vs[4][2] ELSE -1))>>
    [] op = "strings.sha256" ->
         IF n # 1 \/ ~IsStrs(vs) THEN <<"err">>
         ELSE IF vs[1][1] = "str" /\ vs[1][2] \in DOMAIN c.sha THEN <<"ok", StrAt(c.sha[vs[1][2]], vs[1][4])>> ELSE <<"any">>
    [] op = "strings.split" ->
         IF n # 2 \/ ~IsStrs(vs) THEN <<"err">> ELSE IF ~AllStr(vs) THEN <<"any">>
         ELSE LET p == Split(vs[1][2], vs[2][2]) IN <<"ok", List(Tup([i \in 1..Len(p) |-> StrAt(p[i], vs[1][4])]))>>
    [] op \in {"strings.toUpper", "strings.toLower", "strings.trim"} ->
         IF n # 1 \/ ~IsStrs(vs) THEN <<"err">> ELSE IF ~AllStr(vs) THEN <<"any">>
         ELSE <<"ok", StrAt(CASE op = "strings.toUpper" -> ToUpper(vs[1][2])
                              [] op = "strings.toLower" -> ToLower(vs[1][2])
                              [] OTHER -> Trim(vs[1][2]), vs[1][4])>>

------------------------------------------------------------------- (* pure *)
RECURSIVE Entries(_, _, _)
Entries(l, i, acc) ==
  IF i > Len(l) THEN <<"ok", Map(acc)>>
  ELSE IF ~IsList(l[i]) THEN <<"err">>
  ELSE IF Len(l[i][2]) # 2 THEN <<"err">>
  ELSE IF ~IsStr(l[i][2][1]) THEN <<"err">>
  ELSE IF l[i][2][1][1] # "str" THEN <<"any">>
  ELSE Entries(l, i + 1, SetKey(acc, l[i][2][1][2], l[i][2][2]))
RECURSIVE MakeMap(_, _, _)
MakeMap(vs, i, acc) ==
  IF i > Len(vs) THEN <<"ok", Map(acc)>>
  ELSE IF ~IsStr(vs[i]) THEN <<"err">>
  ELSE IF i = Len(vs) THEN <<"err">>
  ELSE IF vs[i][1] # "str" THEN <<"any">>
  ELSE MakeMap(vs, i + 2, SetKey(acc, vs[i][2], vs[i + 1]))
KindName(v) == CASE v[1] \in {"list", "docs"} -> "array" [] v[1] \in {"int", "big"} -> "int"
  [] v[1] \in {"float", "flt"} -> "float" [] v[1] \in {"str", "ytext"} -> "string"
  [] v[1] \in {"map", "mod"} -> "map" [] v[1] = "lam" -> "lambda" [] OTHER -> v[1]
RECURSIVE PatchEach(_, _, _, _)
PatchEach(l, os, i, acc) == IF i > Len(l) THEN <<"ok", Docs(acc)>>
  ELSE LET r == OperateAll(l[i], os) IN IF r[1] # "ok" THEN r ELSE PatchEach(l, os, i + 1, Append(acc, r[2]))
TopDocs(l, sp) == IF sp THEN l ELSE SelectSeq(l, LAMBDA d : d[1] \notin Special)
Marshal(v, sp) ==
  IF HasKind(v, {"mod"}) THEN <<"err">>
  ELSE IF v[1] = "docs" THEN
       LET ds == TopDocs(v[2], sp) IN
       <<"ok", IF ds = <<>> THEN Str("") ELSE V("ytext", Tup([i \in 1..Len(ds) |-> ProjR(ds[i], sp)]))>>
  ELSE IF v[1] \in Special /\ ~sp THEN <<"any">>
  ELSE <<"ok", V("ytext", <<ProjR(v, sp)>>)>>

(* a key that YAML text may read back as something else than a key *)
OddKeys == {"<<"}
RECURSIVE OddKeyed(_)
OddKeyed(d) == \/ d[1] = "list" /\ \E i \in 1..Len(d[2]) : OddKeyed(d[2][i])
               \/ d[1] = "map" /\ \E i \in 1..Len(d[2]) : d[2][i][1] \in OddKeys \/ OddKeyed(d[2][i][2])

(* operators that only look at their arguments *)
PureIn(op, vs, c) ==
  LET n == Len(vs) IN
  CASE op \in {"+", "add"} -> ArithAll("+", vs)
    [] op \in {"-", "sub"} -> ArithAll("-", vs)
    [] op \in {"*", "mul"} -> ArithAll("*", vs)
    [] op \in {"/", "div"} -> ArithAll("/", vs)
    [] op \in {"==", "eq"} -> EqualP(vs, FALSE)
    [] op \in {"!=", "neq"} -> EqualP(vs, TRUE)
    [] op \in {"<", "lt"} -> Compare(vs, {-1})
    [] op \in {"<=", "lte"} -> Compare(vs, {-1, 0})
    [] op \in {">", "gt"} -> Compare(vs, {1})
    [] op \in {">=", "gte"} -> Compare(vs, {0, 1})
    [] op \in {"??", "default"} -> Coalesce(vs, 1)
    [] op \in {"&&", "and"} -> Junct(vs, 1, FALSE)
    [] op \in {"||", "or"} -> Junct(vs, 1, TRUE)
    [] op \in {"!", "not"} -> IF n # 1 THEN <<"err">> ELSE IF vs[1][1] = "mod" THEN <<"err">> ELSE <<"ok", Bool(~Truthy(vs[1]))>>
    [] op = "progn" -> IF n = 0 THEN <<"err">> ELSE <<"ok", vs[n]>>
    [] op = "schema" ->
         IF n # 1 THEN <<"err">> ELSE IF vs[1][1] # "map" THEN <<"err">>
         ELSE IF HasKind(vs[1], {"mod"}) THEN <<"err">>
         ELSE IF HasKind(vs[1], {"big", "flt", "lam", "type", "ytext"}) THEN <<"any">>
         ELSE IF WellFormed(vs[1]) THEN <<"ok", V("type", vs[1])>> ELSE <<"err">>
    [] op = "lists.car" -> IF n # 1 THEN <<"err">> ELSE IF ~IsList(vs[1]) THEN <<"err">>
         ELSE IF vs[1][2] = <<>> THEN <<"err">> ELSE <<"ok", vs[1][2][1]>>
    [] op = "lists.cdr" -> IF n # 1 THEN <<"err">> ELSE IF ~IsList(vs[1]) THEN <<"err">>
         ELSE IF vs[1][2] = <<>> THEN <<"err">> ELSE <<"ok", List(Tail(vs[1][2]))>>
    [] op = "lists.cons" -> IF n # 2 THEN <<"err">> ELSE IF ~IsList(vs[2]) THEN <<"err">>
         ELSE <<"ok", List(<<vs[1]>> \o vs[2][2])>>
    [] op = "lists.contains" -> IF n # 2 THEN <<"err">> ELSE IF ~IsList(vs[1]) THEN <<"err">> ELSE MemberR(vs[1][2], vs[2], 1, FALSE)
    [] op = "lists.flatten" ->
         LET l == Flat(vs, 1, <<>>) IN <<"ok", IF \A i \in 1..n : vs[i][1] = "docs" THEN Docs(l) ELSE List(l)>>
    [] op = "lists.as-toplevel" -> <<"ok", Docs(Concat(vs, 1, <<>>))>>
    [] op = "lists.iota" -> IF n = 0 THEN <<"err">> ELSE IF n > 2 THEN <<"any">>
         ELSE IF ~(\A i \in 1..n : IsInt(vs[i])) THEN <<"err">>
         ELSE IF vs[1][1] = "big" THEN <<"err">>
         ELSE IF vs[1][2] < 0 \/ vs[1][2] > 16777216 THEN <<"err">>
         ELSE IF n = 2 /\ vs[2][1] = "big" THEN <<"any">>
         ELSE IF n = 2 /\ vs[2][2] < 0 THEN <<"err">>
         ELSE LET from == IF n = 2 THEN vs[2][2] ELSE 0 IN <<"ok", List(Tup([i \in 1..vs[1][2] |-> FromSL(SL(from + i - 1))]))>>
    [] op = "lists.length" -> IF n # 1 THEN <<"err">> ELSE IF ~IsList(vs[1]) THEN <<"err">> ELSE <<"ok", IntV(Len(vs[1][2]))>>
    [] op = "lists.at" -> IF n # 2 THEN <<"err">> ELSE IF ~IsList(vs[1]) \/ ~IsInt(vs[2]) THEN <<"err">>
         ELSE IF vs[2][1] = "big" THEN <<"err">>
         ELSE IF vs[2][2] < 0 \/ vs[2][2] >= Len(vs[1][2]) THEN <<"err">> ELSE <<"ok", vs[1][2][vs[2][2] + 1]>>
    [] op = "maps.from-entries" -> IF n = 0 THEN <<"err">> ELSE IF n > 1 THEN <<"any">>
         ELSE IF ~IsList(vs[1]) THEN <<"err">> ELSE Entries(vs[1][2], 1, <<>>)
    [] op = "maps.get" -> IF n # 2 THEN <<"err">> ELSE IF vs[1][1] # "map" \/ ~IsStr(vs[2]) THEN <<"err">>
         ELSE IF vs[2][1] # "str" THEN <<"any">>
         ELSE IF HasKey(vs[1][2], vs[2][2]) THEN <<"ok", GetKey(vs[1][2], vs[2][2])>> ELSE <<"err">>
    [] op = "maps.keys" -> IF n # 1 THEN <<"err">> ELSE IF vs[1][1] # "map" THEN <<"err">>
         ELSE <<"ok", List(Tup([i \in 1..Len(vs[1][2]) |-> StrAt(vs[1][2][i][1], "?")]))>>
    [] op = "maps.values" -> IF n # 1 THEN <<"err">> ELSE IF vs[1][1] # "map" THEN <<"err">>
         ELSE <<"ok", List(Tup([i \in 1..Len(vs[1][2]) |-> vs[1][2][i][2]]))>>
    [] op = "maps.to-entries" -> IF n # 1 THEN <<"err">> ELSE IF vs[1][1] # "map" THEN <<"err">>
         ELSE <<"ok", List(Tup([i \in 1..Len(vs[1][2]) |-> List(<<StrAt(vs[1][2][i][1], "?"), vs[1][2][i][2]>>)]))>>
    [] op = "maps.make" -> MakeMap(vs, 1, <<>>)
    [] op = "maps.merge" -> MergeAll(vs, c.schemas)
    [] op = "maps.patch" ->
         IF n # 2 THEN <<"err">> ELSE IF ~IsList(vs[2]) /\ vs[2][1] # "map" THEN <<"err">>
         ELSE LET os == IF vs[2][1] = "map" THEN <<vs[2]>> ELSE vs[2][2] IN
              IF vs[1][1] = "docs" THEN PatchEach(vs[1][2], os, 1, <<>>) ELSE OperateAll(vs[1], os)
    [] op = "k8s.patch" ->
         IF n # 2 THEN <<"err">> ELSE IF ~IsList(vs[1]) \/ ~IsList(vs[2]) THEN <<"err">>
         ELSE LET r == PatchAll(vs[1][2], vs[2][2], c.schemas) IN
              IF r[1] = "ok" THEN <<"ok", [vs[1] EXCEPT ![2] = r[2]]>> ELSE r
    [] op = "types.assert" ->
         IF n # 2 THEN <<"err">> ELSE IF vs[1][1] # "type" THEN <<"err">>
         ELSE LET r == Conforms(vs[1][2], vs[2], c.schemas) IN
              CASE r = "t" -> <<"ok", vs[2]>> [] r = "f" -> <<"err">> [] OTHER -> <<"any">>
    [] op = "types.get" -> IF n # 1 THEN <<"err">> ELSE IF vs[1][3][1] = "none" THEN <<"ok", Null>> ELSE <<"any">>
    [] op = "types.of" -> IF n # 1 THEN <<"err">> ELSE <<"ok", Str(KindName(vs[1]))>>
    [] op = "yaml.marshal" -> IF n # 1 THEN <<"err">> ELSE Marshal(vs[1], c.special)
    [] op = "yaml.unmarshal" ->
         IF n # 1 THEN <<"err">> ELSE IF ~IsStr(vs[1]) THEN <<"err">>
         ELSE IF vs[1][1] = "ytext" /\ \E i \in 1..Len(vs[1][2]) : OddKeyed(vs[1][2][i]) THEN <<"any">>
         ELSE IF vs[1][1] = "ytext" THEN <<"ok", List(Tup([i \in 1..Len(vs[1][2]) |-> OfData(vs[1][2][i], "?")]))>>
         ELSE IF vs[1][2] \in DOMAIN c.ptab THEN
              LET p == c.ptab[vs[1][2]] IN
              IF p[1] = "ok" THEN <<"ok", List(Tup([i \in 1..Len(p[2]) |-> OfTree(p[2][i], vs[1][4])]))>> ELSE p
         ELSE <<"any">>
    [] op \in {"strings.concat", "strings.contains", "strings.quote", "strings.format", "strings.join",
               "strings.replace", "strings.sha256", "strings.split", "strings.toUpper",
               "strings.toLower", "strings.trim"} -> TextOp(op, vs, c)
    [] OTHER -> <<"err">>
PureF == [a \in Any |-> PureIn(a[1], a[2], a[3])]
Pure(op, vs, c) == PureF[<<op, vs, c>>]

-------------------------------------------------------------- (* evaluation *)
RECURSIVE Eval(_, _, _, _, _, _)       \* expression, mode, frame, file, state, context
RECURSIVE EvalSeq(_, _, _, _, _, _, _, _)
RECURSIVE EvalMap(_, _, _, _, _, _, _, _)
RECURSIVE Apply(_, _, _, _, _)         \* function, arguments, frame, state, context
RECURSIVE MapR(_, _, _, _, _, _, _)
RECURSIVE FilterR(_, _, _, _, _, _, _)
RECURSIVE ReduceR(_, _, _, _, _, _, _)
RECURSIVE PipeR(_, _, _, _, _, _)
RECURSIVE IncludeR(_, _, _, _, _)
RECURSIVE IncludeFiles(_, _, _, _, _, _)
RECURSIVE ImportR(_, _, _, _, _, _)
RECURSIVE RunDocs(_, _, _, _, _, _, _)
RECURSIVE Params(_, _, _, _, _)

(* the documents of a file, evaluated in order: documents that yield null    *)
(* are left out, lists of documents contribute their items                   *)
AddDoc(acc, v) == IF v[1] = "null" THEN acc ELSE IF v[1] = "docs" THEN acc \o v[2] ELSE Append(acc, v)
RunDocs(docs, e, file, i, st, c, acc) ==
  IF i > Len(docs) THEN OkR(Docs(acc), st)
  ELSE IF docs[i][1] = "malformed" THEN ErrR(st)
  ELSE LET r == Eval(docs[i], "Q", e, file, st, c) IN
       IF r.s # "ok" THEN r ELSE RunDocs(docs, e, file, i + 1, r.st, c, AddDoc(acc, r.v))

(* the value of a file; e is the frame it is evaluated in *)
LoadFile(path, e, st, c) ==
  LET p == WithIndex(c, path) IN
  IF ~FileExists(c, p) THEN ErrR(st)
  ELSE LET f == c.files[p] IN
       CASE f[1] = "yisp" -> RunDocs(f[2], e, p, 1, st, c, <<>>)
         [] f[1] = "data" -> LET full == SelectSeq(f[2], LAMBDA d : d[1] # "null") IN
                             IF f[2] = <<>> THEN ErrR(st)
                             ELSE OkR(IF full = <<>> THEN Null
                                      ELSE IF Len(full) = 1 THEN OfTree(full[1], p)
                                      ELSE Docs(Tup([i \in 1..Len(full) |-> OfTree(full[i], p)])), st)
         [] f[1] = "bad" -> ErrR(st)
         [] OTHER -> OkR(Str(f[2]), st)
NewFrame(st) == AddFrame(st, 0, BuiltinTypes)

IncludeFiles(paths, i, base, st, c, acc) ==
  IF i > Len(paths) THEN OkR(Docs(acc), st)
  ELSE LET full == Target(base, paths[i]) IN
       IF SameSource(base, paths[i]) THEN IncludeFiles(paths, i + 1, base, st, c, acc)
       ELSE LET st1 == NewFrame(st)
                r == LoadFile(full, Len(st1.fr), st1, c)
            IN IF r.s # "ok" THEN r
               ELSE IncludeFiles(paths, i + 1, base, r.st, c, acc \o Flat1(r.v))
IncludeR(vs, i, st, c, acc) ==
  IF i > Len(vs) THEN OkR(Docs(acc), st)
  ELSE IF ~IsStr(vs[i]) THEN ErrR(st)
  ELSE IF vs[i][1] # "str" THEN AnyR(st)
  ELSE IF vs[i][4] \in {"", "?"} \/ Odd(vs[i][2]) \/ (StartsWith(vs[i][2], "/") /\ ~IsUrl(vs[i][4])) \/ vs[i][2] = "-" THEN AnyR(st)
  ELSE LET entry == CutDot(vs[i][2])
           found == IF HasGlob(entry) THEN GlobFiles(c, Dir(vs[i][4]), entry, TRUE) ELSE <<>>
           paths == IF found = <<>> THEN <<entry>> ELSE found
           r == IF HasGlob(entry) /\ HasText(entry, "..") THEN AnyR(st)
                ELSE IncludeFiles(paths, 1, vs[i][4], st, c, acc)
       IN IF r.s # "ok" THEN r ELSE IncludeR(vs, i + 1, r.st, c, r.v[2])

ImportR(ns, i, e, file, st, c) ==
  IF i > Len(ns) THEN OkR(Null, st)
  ELSE IF ns[i][1] # "seq" THEN ErrR(st)
  ELSE LET t == ns[i][4] IN
       IF Len(t) # 2 THEN ErrR(st)
       ELSE IF t[1][1] \in {"seq", "map"} \/ t[2][1] \in {"seq", "map"} THEN ErrR(st)
       ELSE IF t[1][1] # "str" \/ t[2][1] # "str" THEN AnyR(st)
       ELSE IF Odd(t[2][4]) \/ (StartsWith(t[2][4], "/") /\ ~IsUrl(file)) \/ t[2][4] = "-" THEN AnyR(st)
       ELSE LET st1 == NewFrame(st)
                m == Len(st1.fr)
                r == LoadFile(Target(file, t[2][4]), m, st1, c)
            IN IF r.s # "ok" THEN r
               ELSE ImportR(ns, i + 1, e, file, Bind(r.st, Root(r.st.fr, e), t[1][4], V("mod", m)), c)

(* parameters: <<name, type>>; a tag must name a type *)
ParamType(st, e, tag) == IF tag = "" THEN <<"none">>
  ELSE LET t == TagType(st.fr, e, tag) IN IF t[1] = "ok" THEN <<"sch", t[2]>> ELSE <<"undef">>
Params(ps, i, e, st, acc) ==
  IF i > Len(ps) THEN <<"ok", acc>>
  ELSE IF ps[i][1] \in {"seq", "map"} THEN <<"err">>
  ELSE LET name == IF ps[i][1] = "str" THEN ps[i][4]
                   ELSE IF ps[i][1] = "sym" THEN ps[i][4][1][1] ELSE "#" \o ToString(i)
           t == ParamType(st, e, ps[i][2])
       IN IF t[1] = "undef" THEN <<"err">> ELSE Params(ps, i + 1, e, st, Append(acc, <<name, t>>))
Lambda(ns, e, file, st) ==
  IF Len(ns) < 3 THEN ErrR(st)
  ELSE IF ns[2][1] # "seq" THEN ErrR(st)
  ELSE LET ps == Params(ns[2][4], 1, e, st, <<>>)
           ret == ParamType(st, e, ns[2][2])
       IN IF ps[1] = "err" \/ ret[1] = "undef" THEN ErrR(st)
          ELSE LET st1 == AddFrame(st, st.fr[e].p, st.fr[e].v) IN
               OkR(V("lam", <<ps[2], ns[3], Len(st1.fr), file, ret>>), st1)

MapR(l, i, f, e, st, c, acc) ==
  IF i > Len(l) THEN OkR(List(acc), st)
  ELSE LET r == Apply(f, <<l[i]>>, e, st, c) IN
       IF r.s # "ok" THEN r ELSE MapR(l, i + 1, f, e, r.st, c, Append(acc, r.v))
FilterR(l, i, f, e, st, c, acc) ==
  IF i > Len(l) THEN OkR(List(acc), st)
  ELSE LET r == Apply(f, <<l[i]>>, e, st, c) IN
       IF r.s # "ok" THEN r
       ELSE IF r.v[1] = "mod" THEN ErrR(r.st)
       ELSE FilterR(l, i + 1, f, e, r.st, c, IF Truthy(r.v) THEN Append(acc, l[i]) ELSE acc)
ReduceR(l, i, f, e, st, c, acc) ==
  IF i > Len(l) THEN OkR(acc, st)
  ELSE LET r == Apply(f, <<acc, l[i]>>, e, st, c) IN
       IF r.s # "ok" THEN r ELSE ReduceR(l, i + 1, f, e, r.st, c, r.v)
PipeR(fs, i, v, e, st, c) ==
  IF i > Len(fs) THEN OkR(v, st)
  ELSE LET r == Apply(fs[i], <<v>>, e, st, c) IN
       IF r.s # "ok" THEN r ELSE PipeR(fs, i + 1, r.v, e, r.st, c)
KeepDocs(l, r) == IF r.s = "ok" /\ l[1] = "docs" THEN [r EXCEPT !.v = Docs(r.v[2])] ELSE r

(* external programs.  The stand-in the harness installs reports its         *)
(* arguments and input, and answers with its first argument: "!" fails,      *)
(* "@name" prints the text prepared under that name, anything else prints    *)
(* itself; without arguments it prints its input.                            *)
Spawn(argv, first, props, e, st, c) ==
  LET stdin == IF HasKey(props, "stdin") THEN GetKey(props, "stdin")[2] ELSE ""
      st1 == [st EXCEPT !.log = Append(st.log, <<argv, stdin>>)]
      hasArg == Len(argv) >= first
      asStr == HasKey(props, "asString") /\ GetKey(props, "asString")[2]
  IN IF hasArg /\ (argv[first] = "!" \/ StartsWith(argv[first], "!!") \/ StartsWith(argv[first], "!-")) THEN ErrR(st1)
     ELSE IF hasArg /\ StartsWith(argv[first], "!?") THEN
          IF asStr THEN OkR(Str(From(argv[first], 3)), st1) ELSE AnyR(st1)
     ELSE IF hasArg /\ StartsWith(argv[first], "@") THEN
          LET name == From(argv[first], 2) IN
          IF name \notin DOMAIN c.outs THEN AnyR(st1)
          ELSE IF asStr THEN OkR(Str(c.outs[name][1]), st1)
          ELSE LET st2 == AddFrame(st1, e, <<>>) IN RunDocs(c.outs[name][2], Len(st2.fr), "?", 1, st2, c, <<>>)
     ELSE IF asStr THEN OkR(Str(IF hasArg THEN argv[first] ELSE stdin), st1)
     ELSE AnyR(st1)
ExecOp(op, vs, e, st, c) ==
  IF Len(vs) # 1 THEN ErrR(st)
  ELSE IF vs[1][1] # "map" THEN ErrR(st)
  ELSE LET ps == vs[1][2]
           name == IF op = "exec.cmd" THEN "cmd" ELSE "pkg"
           Wrong(k, ok) == HasKey(ps, k) /\ ~ok
           badArgs == HasKey(ps, "args") /\ (IF IsList(GetKey(ps, "args")) THEN ~IsStrs(GetKey(ps, "args")[2]) ELSE TRUE)
           badStdin == HasKey(ps, "stdin") /\ ~IsStr(GetKey(ps, "stdin"))
           badFlag == HasKey(ps, "asString") /\ GetKey(ps, "asString")[1] # "bool"
       IN IF ~HasKey(ps, name) THEN ErrR(st)
          ELSE IF ~IsStr(GetKey(ps, name)) \/ badArgs \/ badStdin THEN ErrR(st)
          ELSE IF HasKind(vs[1], {"ytext"}) THEN AnyR(st)
          ELSE LET target == GetKey(ps, name)[2]
                   args == IF HasKey(ps, "args") THEN Tup([i \in 1..Len(GetKey(ps, "args")[2]) |-> GetKey(ps, "args")[2][i][2]]) ELSE <<>>
               IN IF op = "exec.cmd" THEN
                     IF badFlag THEN ErrR(st)
                     ELSE IF ~c.allowcmd /\ st.cf = 0 THEN ErrR(st)
                     ELSE IF target # "probe" THEN ErrR(st)
                     ELSE Spawn(<<"probe">> \o args, 2, ps, e, IF c.allowcmd THEN st ELSE [st EXCEPT !.cf = st.cf - 1], c)
                  ELSE IF ~(\E i \in 1..Len(c.allowgo) : StarMatch(c.allowgo[i], target)) THEN ErrR(st)
                     ELSE IF badFlag THEN AnyR(st)
                     ELSE Spawn(<<"go", "run", target>> \o args, 4, ps, e, st, c)

FileOp(op, vs, st, c) ==
  IF vs = <<>> THEN ErrR(st)
  ELSE IF op = "files.read" /\ Len(vs) # 1 THEN ErrR(st)
  ELSE IF ~IsStrs(vs) THEN ErrR(st)
  ELSE IF \E i \in 1..Len(vs) : IF vs[i][1] # "str" THEN TRUE
          ELSE vs[i][4] \in {"", "?"} \/ (op = "files.glob" /\ (Odd(vs[i][2]) \/ HasText(vs[i][2], ".."))) \/ StartsWith(vs[i][2], "/")
       THEN AnyR(st)
  ELSE IF \E i \in 1..Len(vs) : IsUrl(vs[i][2]) \/ IsUrl(vs[i][4]) THEN ErrR(st) \* only files on disk are read
  ELSE IF op = "files.read" THEN
       LET p == PathJoin(Dir(vs[1][4]), vs[1][2]) IN
       IF FileExists(c, p) THEN (IF p \in DOMAIN c.texts THEN OkR(StrAt(c.texts[p], p), st) ELSE AnyR(st)) ELSE ErrR(st)
  ELSE LET Found(v) == SelectSeq(GlobFiles(c, Dir(v[4]), CutDot(v[2]), FALSE),
                                 LAMBDA p : PathJoin(Dir(v[4]), p) # Clean(v[4]))
           Entry(v, p) == Map(<<<<"path", Str(p)>>, <<"name", Str(Base(p))>>, <<"body", Str(c.texts[PathJoin(Dir(v[4]), p)])>>>>)
           all == Tup([i \in 1..Len(vs) |-> LET ps == Found(vs[i]) IN List(Tup([j \in 1..Len(ps) |-> Entry(vs[i], ps[j])]))])
       IN IF \E i \in 1..Len(vs) : \E j \in 1..Len(Found(vs[i])) : PathJoin(Dir(vs[i][4]), Found(vs[i])[j]) \notin DOMAIN c.texts
          THEN AnyR(st) ELSE OkR(List(Concat(all, 1, <<>>)), st)

(* typed parameters accept what conforms *)
RECURSIVE ArgsOK(_, _, _, _)
ArgsOK(ps, vs, i, c) == IF i > Len(vs) THEN "t"
  ELSE LET r == IF ps[i][2][1] = "none" THEN "t" ELSE Conforms(ps[i][2][2], vs[i], c.schemas) IN
       IF r = "t" THEN ArgsOK(ps, vs, i + 1, c) ELSE r
RECURSIVE BindArgs(_, _, _, _)
BindArgs(ps, vs, i, acc) == IF i > Len(vs) THEN acc ELSE BindArgs(ps, vs, i + 1, (ps[i][1] :> vs[i]) @@ acc)

Operators == {
  "+", "add", "-", "sub", "*", "mul", "/", "div", "==", "eq", "!=", "neq", "<", "lt", "<=", "lte", ">", "gt", ">=", "gte",
  "??", "default", "&&", "and", "||", "or", "!", "not", "progn", "pipeline", "schema", "include",
  "lists.car", "lists.cdr", "lists.cons", "lists.contains", "lists.flatten", "lists.as-toplevel", "lists.iota",
  "lists.length", "lists.at", "lists.map", "lists.filter", "lists.reduce",
  "maps.from-entries", "maps.get", "maps.keys", "maps.values", "maps.to-entries", "maps.make", "maps.merge", "maps.patch",
  "k8s.patch", "types.assert", "types.get", "types.of", "yaml.marshal", "yaml.unmarshal",
  "strings.concat", "strings.contains", "strings.quote", "strings.format", "strings.join", "strings.replace",
  "strings.sha256", "strings.split", "strings.toUpper", "strings.toLower", "strings.trim",
  "exec.cmd", "exec.go", "files.read", "files.glob"}
Apply(f, vs, e, st, c) ==
  IF f[1] = "lam" THEN
     LET ps == f[2][1] IN
     IF Len(vs) > Len(ps) THEN ErrR(st)
     ELSE LET ok == ArgsOK(ps, vs, 1, c) IN
          IF ok = "f" THEN ErrR(st) ELSE IF ok = "u" THEN AnyR(st)
          ELSE LET st1 == AddFrame(st, f[2][3], BindArgs(ps, vs, 1, <<>>)) IN
               Eval(f[2][2], "E", Len(st1.fr), f[2][4], st1, c)
  ELSE IF f[1] = "ytext" THEN ErrR(st)
  ELSE IF f[1] # "str" THEN ErrR(st)
  ELSE IF f[2] \notin Operators THEN IF Len(Split(f[2], ".")) > 2 THEN AnyR(st) ELSE ErrAt(f[4], f[2], st)
  ELSE CASE f[2] = "include" -> IncludeR(vs, 1, st, c, <<>>)
    [] f[2] = "pipeline" -> IF vs = <<>> THEN ErrR(st) ELSE PipeR(vs, 2, vs[1], e, st, c)
    [] f[2] \in {"lists.map", "lists.filter", "lists.reduce"} ->
         IF Len(vs) < 2 THEN ErrR(st)
         ELSE IF ~IsList(vs[1]) THEN ErrR(st)
         ELSE IF Len(vs) > 2 THEN AnyR(st)
         ELSE CASE f[2] = "lists.map" -> KeepDocs(vs[1], MapR(vs[1][2], 1, vs[2], e, st, c, <<>>))
                [] f[2] = "lists.filter" -> KeepDocs(vs[1], FilterR(vs[1][2], 1, vs[2], e, st, c, <<>>))
                [] OTHER -> IF vs[1][2] = <<>> THEN ErrR(st)
                            ELSE ReduceR(vs[1][2], 2, vs[2], e, st, c, vs[1][2][1])
    [] f[2] \in {"exec.cmd", "exec.go"} -> ExecOp(f[2], vs, e, st, c)
    [] f[2] \in {"files.read", "files.glob"} -> FileOp(f[2], vs, st, c)
    [] OTHER -> Of(Pure(f[2], vs, c), st)

EvalSeq(ns, i, m, e, file, st, c, acc) ==
  IF i > Len(ns) THEN OkR(List(acc), st)
  ELSE LET r == Eval(ns[i], m, e, file, st, c) IN
       IF r.s # "ok" THEN r ELSE EvalSeq(ns, i + 1, m, e, file, r.st, c, Append(acc, r.v))

(* what a merge key adds *)
RECURSIVE MergeIn(_, _, _)
MergeIn(acc, l, i) == IF i > Len(l) THEN <<"ok", acc>>
  ELSE IF l[i][1] = "map" THEN MergeIn(SetAll(acc, l[i][2]), l, i + 1)
  ELSE IF l[i][1] = "null" THEN MergeIn(acc, l, i + 1) ELSE <<"err">>
MergeValue(acc, v) == CASE v[1] = "map" -> <<"ok", SetAll(acc, v[2])>>
  [] IsList(v) -> MergeIn(acc, v[2], 1)
  [] v[1] = "null" -> <<"ok", acc>>
  [] OTHER -> <<"err">>
EvalMap(ps, i, m, e, file, st, c, acc) ==
  IF i > Len(ps) THEN OkR(Map(acc), st)
  ELSE LET r == Eval(ps[i][2], m, e, file, st, c) IN
       IF r.s # "ok" THEN r
       ELSE IF ps[i][1] = "<<" THEN
            LET g == MergeValue(acc, r.v) IN
            IF g[1] = "err" THEN ErrR(r.st) ELSE EvalMap(ps, i + 1, m, e, file, r.st, c, g[2])
       ELSE EvalMap(ps, i + 1, m, e, file, r.st, c, SetKey(acc, ps[i][1], r.v))

(* the schema a written map takes: <<"none">>, <<"sch", s>>, <<"err">> or    *)
(* <<"any">>; keys: those written in the map itself                          *)
Written(ps, v, k) ==   \* the text a written key has; "" if it is absent or no text
  IF HasKey(ps, k) /\ GetKey(v[2], k)[1] = "str" THEN GetKey(v[2], k)[2] ELSE ""
ManifestSchema(ps, v, c) ==
  LET url == Written(ps, v, "$schema")
      av == Written(ps, v, "apiVersion")
      kind == Written(ps, v, "kind")
      parts == Split(av, "/")
      gvk == (IF Len(parts) = 2 THEN parts[1] ELSE "") \o "_" \o
             (IF Len(parts) > 2 THEN "" ELSE parts[Len(parts)]) \o "_" \o kind
      missing == IF c.untyped THEN <<"none">> ELSE <<"err">>
      Get(k, tab) == IF k \in DOMAIN tab THEN tab[k] ELSE <<"no">>
  IN IF \E k \in {"$schema", "apiVersion", "kind"} : HasKey(ps, k) /\ HasKey(v[2], k) /\ GetKey(v[2], k)[1] = "ytext" THEN <<"any">>
     ELSE IF url # "" THEN
          LET g == Get(url, c.urls) IN IF g[1] = "ok" THEN <<"sch", g[2]>> ELSE IF g[1] = "no" THEN <<"any">> ELSE missing
     ELSE IF av # "" /\ kind # "" THEN
          IF gvk \in DOMAIN c.gvk /\ c.gvk[gvk] \in DOMAIN c.schemas THEN <<"sch", c.schemas[c.gvk[gvk]]>> ELSE missing
     ELSE <<"none">>

SpecialForms == {"if", "lambda", "import"}
HeadName(n) == CASE n[1] = "str" -> n[4]
  [] n[1] = "sym" -> IF Len(n[4]) = 1 /\ ~n[4][1][2] THEN n[4][1][1] ELSE ""
  [] OTHER -> ""

EvalNode(n, m, e, file, st, c) ==
  CASE n[1] = "sym" -> LET r == Lookup(st.fr, e, n[4]) IN IF r[1] = "ok" THEN OkR(r[2], st) ELSE ErrAt(file, "*" \o n[4][1][1], st)
    [] n[1] = "null" -> OkR(Null, st)
    [] n[1] = "str" -> OkR(StrAt(n[4], file), st)
    [] n[1] \in {"bool", "int", "big", "float", "flt"} -> OkR(V(n[1], n[4]), st)
    [] n[1] = "bad" -> ErrAt(file, n[4], st)
    [] n[1] = "map" ->
         LET r == EvalMap(n[4], 1, m, e, file, st, c, <<>>) IN
         IF r.s # "ok" THEN r
         ELSE LET s == ManifestSchema(n[4], r.v, c)
                  url == Written(n[4], r.v, "$schema")
                  st1 == IF url = "" THEN r.st ELSE [r.st EXCEPT !.used = Append(r.st.used, url)]
              IN CASE s[1] = "none" -> OkR(r.v, st1)
                   [] s[1] = "sch" -> OkR(WithType(r.v, s), st1)
                   [] s[1] = "err" -> ErrR(st1)
                   [] OTHER -> AnyR(st1)
    [] n[1] = "seq" ->
         IF m = "Q" THEN EvalSeq(n[4], 1, m, e, file, st, c, <<>>)
         ELSE IF n[4] = <<>> THEN OkR(List(<<>>), st)
         ELSE LET ns == n[4] head == HeadName(ns[1]) IN
              CASE head = "if" ->
                     IF Len(ns) # 4 THEN ErrR(st)
                     ELSE LET r == Eval(ns[2], m, e, file, st, c) IN
                          IF r.s # "ok" THEN r
                          ELSE IF r.v[1] = "mod" THEN ErrR(r.st)
                          ELSE Eval(IF Truthy(r.v) THEN ns[3] ELSE ns[4], m, e, file, r.st, c)
                [] head = "lambda" -> Lambda(ns, e, file, st)
                [] head = "import" -> ImportR(Tail(ns), 1, e, file, st, c)
                [] OTHER -> LET r == EvalSeq(ns, 1, m, e, file, st, c, <<>>) IN
                            IF r.s # "ok" THEN r ELSE Apply(r.v[2][1], Tail(r.v[2]), e, r.st, c)

EvalIn(n, m, e, file, st, c) ==
  LET m1 == IF n[2] = "!yisp" THEN "E" ELSE IF n[2] = "!quote" THEN "Q" ELSE m
      r == EvalNode(n, m1, e, file, st, c)
  IN IF r.s # "ok" THEN r
     ELSE LET t == IF n[2] \in {"", "!quote", "!yisp"} THEN <<"none">> ELSE TagType(r.st.fr, e, n[2])
              k == IF t[1] = "ok" THEN Cast(t[2], r.v, c.schemas) ELSE <<"ok", r.v>>
          IN IF k[1] = "err" /\ n[1] = "str" THEN ErrAt(file, n[4], r.st)
             ELSE IF k[1] # "ok" THEN Of(k, r.st)
             ELSE IF n[3] = "" THEN OkR(k[2], r.st)
             ELSE LET st1 == Bind(r.st, Root(r.st.fr, e), n[3], k[2])
                      st2 == IF k[2][1] = "lam" THEN Bind(st1, k[2][2][3], n[3], k[2]) ELSE st1
                  IN OkR(k[2], st2)

(* the function that evaluates is a part of the context (see Util)           *)
Eval(n, m, e, file, st, c) == c.eval[<<n, m, e, file, st, c>>]
EvalF == [a \in Any |-> EvalIn(a[1], a[2], a[3], a[4], a[5], a[6])]
Full(c) == [eval |-> EvalF] @@ c

----------------------------------------------------------------- (* output *)
(* What a build of these documents yields: <<"ok", projected documents>>,    *)
(* <<"err">> or <<"any">>.                                                   *)
OutputIn(docs, c) ==
  LET t == IF c.nocheck \/ c.untyped THEN "t" ELSE WellTyped(List(docs), c.schemas) IN
  IF t = "f" THEN <<"err">>
  ELSE IF t = "u" THEN <<"any">>
  ELSE IF HasKind(List(docs), {"mod"}) THEN <<"err">>
  ELSE LET ds == TopDocs(docs, c.special) IN <<"ok", Tup([i \in 1..Len(ds) |-> ProjR(ds[i], c.special)])>>
OutputF == [a \in Any |-> OutputIn(a[1], a[2])]
Output(docs, c) == OutputF[<<docs, c>>]

(* expected data against what came out; a text made by yaml.marshal is       *)
(* compared by what it parses to (ytab: text -> documents)                   *)
RECURSIVE Same(_, _, _)
RECURSIVE SameDocs(_, _, _)
SameMap(p, q, tab) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : p[i][1] = q[i][1] /\ Same(p[i][2], q[i][2], tab)
SameDocs(x, o, tab) == Len(x) = Len(o) /\ \A i \in 1..Len(x) : Same(x[i], o[i], tab)
Same(x, o, tab) ==
  CASE x[1] = "ytext" -> IF o[1] = "str" /\ o[2] \in DOMAIN tab THEN SameDocs(x[2], tab[o[2]], tab) ELSE FALSE
    [] x[1] = "list" -> o[1] = "list" /\ SameDocs(x[2], o[2], tab)
    [] x[1] = "map" -> o[1] = "map" /\ SameMap(x[2], o[2], tab)
    [] OTHER -> x[1] = o[1] /\ x[2] = o[2]
=============================================================================
