------------------------------- MODULE MC_Laws ------------------------------
(* What must hold of the operators themselves: the laws the properties name, *)
(* checked on the specification for every combination of values from small   *)
(* universes.  The harness compares the code with these operators; this      *)
(* module says that they are the operators meant.                            *)
EXTENDS Yisp, IOUtils

VARIABLE combo       \* the values under examination
Section == IOEnv.LAWS

P(op, vs) == Pure(op, vs, [schemas |-> <<>>, sha |-> <<>>, ptab |-> <<>>, special |-> FALSE])
IsOk(r) == r[1] = "ok"
Same3(a, b) == Eq(a, b) = "t"
True == <<"ok", Bool(TRUE)>>
False == <<"ok", Bool(FALSE)>>
F(q) == V("float", q)     \* quarters
M1(k, v) == Map(<<<<k, v>>>>)
M2(k, v, l, w) == Map(<<<<k, v>>, <<l, w>>>>)
L1(x) == List(<<x>>)
L2(x, y) == List(<<x, y>>)
Max64 == V("big", <<1, MaxInt64>>)
Min64 == V("big", <<-1, MinInt64>>)
Keys(v) == {v[2][i][1] : i \in 1..Len(v[2])}

----------------------------------------------------------------- (* values *)
Vals == {Null, Bool(TRUE), Bool(FALSE), IntV(0), IntV(1), IntV(-1), IntV(2), F(0), F(4), F(2), F(-4), Max64, Min64,
  V("flt", ".inf"), V("flt", "0.1"), Str(""), Str("a"), Str("1"), List(<<>>), L1(IntV(1)), L1(F(4)), Docs(<<IntV(1)>>), L2(IntV(1), Null),
  Map(<<>>), M2("a", IntV(1), "b", IntV(2)), M2("b", F(8), "a", IntV(1)), M2("a", IntV(1), "b", Null), M1("a", IntV(1)), L1(M1("a", F(4))), L1(M1("a", IntV(1)))}
Not(r) == IF IsOk(r) THEN P("!", <<r[2]>>) ELSE r
ValueLaws(a, b, d) ==
  /\ Same3(a, a)
  /\ Eq(a, b) = Eq(b, a)
  /\ (Same3(a, b) /\ Same3(b, d)) => Same3(a, d)
  /\ Same3(a, b) => Truthy(a) = Truthy(b)
  /\ P("!=", <<a, b>>) = Not(P("==", <<a, b>>)) /\ P("eq", <<a, b>>) = P("==", <<a, b>>)
  /\ IF IsNum(a) /\ IsNum(b) THEN
       LET o == NumCmp(a, b) IN
       /\ o = 2 \/ NumCmp(b, a) = -o
       /\ o # 2 => (o = 0) = Same3(a, b)
       /\ P(">", <<a, b>>) = P("<", <<b, a>>) /\ P(">=", <<a, b>>) = P("<=", <<b, a>>)
       /\ o # 2 => /\ P(">=", <<a, b>>) = Not(P("<", <<a, b>>))
                   /\ P("<=", <<a, b>>) = P("||", <<P("<", <<a, b>>)[2], P("==", <<a, b>>)[2]>>)
       /\ (IsNum(d) /\ o \in {-1, 0} /\ NumCmp(b, d) \in {-1, 0}) => NumCmp(a, d) \in {-1, 0}
     ELSE \A op \in {"<", "<=", ">", ">="} : P(op, <<a, b>>) = <<"err">>
  /\ Not(P("&&", <<a, b, d>>)) = P("||", <<Not(<<"ok", a>>)[2], Not(<<"ok", b>>)[2], Not(<<"ok", d>>)[2]>>)
  /\ P("&&", <<a, P("&&", <<b, d>>)[2]>>) = P("&&", <<a, b, d>>)
  /\ P("??", <<a, P("??", <<b, d>>)[2]>>) = P("??", <<a, b, d>>)
  /\ P("??", <<a, b>>)[2][1] = "null" => a[1] = "null" /\ b[1] = "null"
  /\ Same3(a, b) => P("lists.contains", <<L2(d, a), b>>) = True
  /\ (\A n \in {a, b, d} : ~IsInt(n)) => P("+", <<a, b, d>>) = <<"err">>

--------------------------------------------------------------- (* integers *)
Nums == {SL(0), SL(1), SL(-1), SL(2), SL(-3), SL(7), SL(9999), SL(-10000), SL(10001), SL(99999999), SL(-100000000),
  <<1, <<9012, 5678, 1234>>>>, <<-1, <<1, 0, 1>>>>, <<1, MaxInt64>>, <<-1, MaxInt64>>, <<-1, MinInt64>>, <<1, <<0, 0, 0, 0, 1>>>>}
EqN(x, y) == SLCmp(x, y) = 0
AbsSL(x) == <<1, x[2]>>
IntLaws(x, y, z) ==
  /\ EqN(SLAdd(x, y), SLAdd(y, x)) /\ EqN(SLMul(x, y), SLMul(y, x))
  /\ EqN(SLAdd(x, SLAdd(y, z)), SLAdd(SLAdd(x, y), z))
  /\ EqN(SLMul(x, SLMul(y, z)), SLMul(SLMul(x, y), z))
  /\ EqN(SLMul(x, SLAdd(y, z)), SLAdd(SLMul(x, y), SLMul(x, z)))
  /\ EqN(SLAdd(x, SLNeg(x)), SL(0)) /\ EqN(SLMul(x, SL(1)), x) /\ EqN(SLAdd(x, SL(0)), x)
  /\ SLCmp(x, y) = -SLCmp(y, x) /\ SLCmp(SLAdd(x, z), SLAdd(y, z)) = SLCmp(x, y)
  /\ (SLCmp(x, y) <= 0 /\ SLCmp(y, z) <= 0) => SLCmp(x, z) <= 0
  /\ ~EqN(y, SL(0)) =>      \* towards zero
       LET q == SLDiv(x, y) r == SLAdd(x, SLNeg(SLMul(q, y))) IN
       /\ SLCmp(AbsSL(r), AbsSL(y)) < 0
       /\ EqN(r, SL(0)) \/ SLCmp(r, SL(0)) = SLCmp(x, SL(0))
  /\ SLSmall(x) => SLText(x) = ToString(SLInt(x)) /\ FromSL(x) = IntV(SLInt(x))
  /\ (SLText(x) = SLText(y)) = EqN(x, y)
  /\ LET a == FromSL(x) b == FromSL(y) IN
     /\ P("+", <<a, b>>) = Checked(SLAdd(x, y)) /\ P("-", <<a, b>>) = Checked(SLAdd(x, SLNeg(y)))
     /\ P("*", <<a, b>>) = Checked(SLMul(x, y))
     /\ P("/", <<a, b>>) = (IF EqN(y, SL(0)) THEN <<"err">> ELSE Checked(SLDiv(x, y)))
     /\ P("<", <<a, b>>) = <<"ok", Bool(SLCmp(x, y) < 0)>>
     /\ P("-", <<a>>) = <<"ok", a>> /\ P("+", <<a>>) = <<"ok", a>>

------------------------------------------------------------------ (* lists *)
Items == {Null, IntV(1), Str("a"), List(<<>>), L1(IntV(1)), M1("a", Null), L1(L2(IntV(2), Null))}
Lists == {<<>>} \cup {<<x>> : x \in Items} \cup {<<x, y>> : x \in Items, y \in Items}
ListLaws(x, l, m) ==
  LET v == List(l) w == List(m) n == Len(l) c == P("lists.cons", <<x, v>>)[2] IN
  /\ P("lists.car", <<c>>) = <<"ok", x>> /\ P("lists.cdr", <<c>>) = <<"ok", v>>
  /\ P("lists.length", <<c>>) = <<"ok", IntV(n + 1)>>
  /\ n > 0 => P("lists.cons", <<P("lists.car", <<v>>)[2], P("lists.cdr", <<v>>)[2]>>) = <<"ok", v>>
  /\ n = 0 => P("lists.car", <<v>>) = <<"err">> /\ P("lists.cdr", <<v>>) = <<"err">>
  /\ \A i \in -1..(n + 1) : P("lists.at", <<v, IntV(i)>>) = (IF i \in 0..(n - 1) THEN <<"ok", l[i + 1]>> ELSE <<"err">>)
  /\ P("lists.at", <<c, IntV(0)>>) = <<"ok", x>>
  /\ P("lists.contains", <<v, x>>) = <<"ok", Bool(\E i \in 1..n : Same3(l[i], x))>>
  (* flattening is one level, and nothing to lists of no lists *)
  /\ P("lists.flatten", <<v, w>>) = <<"ok", List(P("lists.flatten", <<v>>)[2][2] \o P("lists.flatten", <<w>>)[2][2])>>
  /\ P("lists.flatten", <<L1(v)>>) = <<"ok", v>> \/ \E i \in 1..n : IsList(l[i])
  /\ P("lists.as-toplevel", <<v>>) = <<"ok", Docs(l)>>
  /\ LET i == P("lists.iota", <<IntV(n), IntV(3)>>)[2] IN Len(i[2]) = n /\ \A k \in 1..n : i[2][k] = IntV(2 + k)

------------------------------------------------------------------- (* maps *)
Texts == {"a", "b", "c"}
Flat2 == {Map(<<>>)} \cup {M1(k, v) : k \in Texts, v \in {IntV(1), Null, L1(IntV(1))}}
         \cup {M2(k, IntV(2), l, v) : k \in Texts, l \in {"c", "d"}, v \in {Str("x"), List(<<>>)}}
Deep == {M1("m", x) : x \in {Map(<<>>), M1("a", IntV(1)), M2("b", IntV(2), "a", M1("z", Null)), L1(IntV(3))}} \cup {M2("k", Null, "m", M1("a", M1("y", IntV(4))))}
Maps0 == {x \in Flat2 \cup Deep : x[1] = "map" /\ (Len(x[2]) = 2 => x[2][1][1] # x[2][2][1])}
Merge2(a, b) == P("maps.merge", <<a, b>>)
KeysOf(v) == Tup([i \in 1..Len(v[2]) |-> v[2][i][1]])
MapLaws(a, b, d) ==
  LET ab == Merge2(a, b) es == P("maps.to-entries", <<a>>)[2] IN
  /\ P("maps.from-entries", <<es>>) = <<"ok", a>>
  /\ P("maps.keys", <<a>>)[2][2] = Tup([i \in 1..Len(a[2]) |-> StrAt(a[2][i][1], "?")])
  /\ \A i \in 1..Len(a[2]) : P("maps.get", <<a, Str(a[2][i][1])>>) = <<"ok", P("maps.values", <<a>>)[2][2][i]>>
  /\ P("maps.get", <<a, Str("none")>>) = <<"err">>
  /\ P("maps.make", FlattenSeq(Tup([i \in 1..Len(a[2]) |-> <<Str(a[2][i][1]), a[2][i][2]>>]))) = <<"ok", a>>
  (* the merge: the keys of both, in order; the later wins where not both are maps *)
  /\ IsOk(ab)
  /\ KeysOf(ab[2]) = KeysOf(a) \o SelectSeq(KeysOf(b), LAMBDA k : ~HasKey(a[2], k))
  /\ \A k \in Keys(ab[2]) : GetKey(ab[2][2], k) =
       (IF ~HasKey(b[2], k) THEN GetKey(a[2], k) ELSE IF ~HasKey(a[2], k) THEN GetKey(b[2], k)
        ELSE IF GetKey(a[2], k)[1] = "map" /\ GetKey(b[2], k)[1] = "map" THEN Merge2(GetKey(a[2], k), GetKey(b[2], k))[2] ELSE GetKey(b[2], k))
  /\ Merge2(a, a) = <<"ok", a>> /\ Merge2(a, Map(<<>>)) = <<"ok", a>>
  /\ Same3(Merge2(Map(<<>>), a)[2], a)
  /\ P("maps.merge", <<a, b, d>>) = Merge2(ab[2], d)
  /\ (a \in Flat2 /\ b \in Flat2 /\ d \in Flat2) => Merge2(ab[2], d) = Merge2(a, Merge2(b, d)[2])
  (* the merge key: like a merge of the top level only *)
  /\ LET g == MergeValue(a[2], b) IN IsOk(g) /\ \A i \in 1..Len(g[2]) : g[2][i][2] = (IF HasKey(b[2], g[2][i][1]) THEN GetKey(b[2], g[2][i][1]) ELSE GetKey(a[2], g[2][i][1]))
  /\ MergeValue(MergeValue(a[2], b)[2], d) = MergeValue(a[2], L2(b, d))

-------------------------------------------------------------- (* manifests *)
Text(t) == M1("type", Str(t))
AnyMap == M2("type", Str("object"), "additionalProperties", Bool(TRUE))
ListType(strategy, key) == Map(<<<<"type", Str("array")>>, <<"items", AnyMap>>>>
  \o (IF strategy = "" THEN <<>> ELSE <<<<"patchStrategy", Str(strategy)>>>>) \o (IF key = "" THEN <<>> ELSE <<<<"patchMergeKey", Str(key)>>>>))
ManifestType(strategy, key) == Map(<<<<"type", Str("object")>>, <<"additionalProperties", Bool(TRUE)>>, <<"properties", M1("l", ListType(strategy, key))>>>>)
Entry(k, v) == M2("k", IntV(k), "v", IntV(v))
EntryLists == {<<>>, <<Entry(1, 1)>>, <<Entry(1, 2), Entry(2, 2)>>, <<Entry(2, 3)>>, <<Entry(3, 4), Entry(1, 4)>>}
Named(n, t, l) == WithType(Map(<<<<"kind", Str("T")>>, <<"metadata", M1("name", Str(n))>>, <<"l", List(l)>>>>), t)
Strategies == {<<"none">>} \cup {<<"sch", ManifestType(s, k)>> : s \in {"", "replace", "merge", "merge,retainKeys"}, k \in {"", "k"}}
Manifests == {<<Named("x", t, l), Named("y", t, m), l>> : t \in Strategies, l \in EntryLists, m \in {<<>>, <<Entry(1, 9)>>}}
Patches == {Named(n, <<"none">>, l) : n \in {"x", "z"}, l \in EntryLists}
Strat(v) == IF v[3][1] = "none" THEN "" ELSE Txt(GetKey(Props(v[3][2]), "l"), "patchStrategy")
MKey(v) == IF v[3][1] = "none" THEN "" ELSE Txt(GetKey(Props(v[3][2]), "l"), "patchMergeKey")
ListIn(v) == GetKey(v[2], "l")[2]
KeysIn(l) == Tup([i \in 1..Len(l) |-> GetKey(l[i][2], "k")])
ManifestLaws(m, p, q) ==
  LET ts == <<m[1], m[2]>>
      r == PatchAll(ts, <<p>>, <<>>)
      l == m[3]
      n == ListIn(p)
      x == ListIn(r[2][1])
  IN /\ IsOk(r) /\ Len(r[2]) = 2 /\ r[2][2] = m[2] /\ Id(r[2][1]) = Id(m[1])
     /\ r[2][1][3] = m[1][3]
     /\ Id(p) # Id(m[1]) => r[2] = ts
     /\ PatchAll(ts, <<p, q>>, <<>>) = PatchAll(r[2], <<q>>, <<>>)
     /\ PatchAll(Reverse(ts), <<p>>, <<>>)[2] = Reverse(r[2])
     /\ Id(p) = Id(m[1]) =>
          IF ~StartsWith(Strat(m[1]), "merge") THEN x = n
          ELSE IF MKey(m[1]) = "" THEN x = l \o n
          ELSE /\ KeysIn(x) = KeysIn(l) \o SelectSeq(KeysIn(n), LAMBDA k : \A i \in 1..Len(l) : KeysIn(l)[i] # k)
               /\ \A i \in 1..Len(x) : \/ \E j \in 1..Len(n) : n[j] = x[i]
                                       \/ x[i] \in {l[j] : j \in 1..Len(l)} /\ \A j \in 1..Len(n) : KeysIn(n)[j] # KeysIn(x)[i]
               /\ PatchAll(r[2], <<p>>, <<>>) = r

------------------------------------------------------------------ (* patch *)
Leaves == {IntV(1), Null, M1("a", IntV(2)), L2(IntV(3), M1("b", Null)), List(<<>>)}
Targets == {M1("a", x) : x \in Leaves} \cup {M2("a", x, "b/~1", y) : x \in Leaves, y \in {IntV(4), M1("a", IntV(5))}} \cup {L2(x, y) : x \in Leaves, y \in {M1("a", IntV(6))}} \cup Leaves
Paths == {"", "/a", "/a/a", "/a/0", "/a/1", "/a/2", "/a/-", "/b~1~01", "/b~1~01/a", "/0", "/1", "/1/a", "/2", "/-", "/c", "/a/c", "a", "/*", "/a/*", "/*/a"}
Op(op, p, x) == Map(<<<<"op", Str(op)>>, <<"path", Str(p)>>>> \o (IF op \in {"copy", "move"} THEN <<<<"from", Str(x)>>>> ELSE IF op = "remove" THEN <<>> ELSE <<<<"value", x>>>>))
Wild(p) == HasText(p, "*")
Run1(v, o) == OperateAll(v, <<o>>)
Run2(v, o, q) == OperateAll(v, <<o, q>>)
PatchLaws(v, p, q) ==
  LET x == Str("new") add == Run1(v, Op("add", p, x)) rep == Run1(v, Op("replace", p, x)) del == Run1(v, Op("remove", p, x)) IN
  /\ PtrOK(p) \/ (add = Err /\ rep = Err /\ del = Err)
  (* one after the other; a failing one fails the patch *)
  /\ Run2(v, Op("add", p, x), Op("remove", q, x)) = (IF IsOk(add) THEN Run1(add[2], Op("remove", q, x)) ELSE add)
  /\ Run2(v, Op("remove", p, x), Op("add", q, Null)) = (IF IsOk(del) THEN Run1(del[2], Op("add", q, Null)) ELSE del)
  /\ ~Wild(p) /\ PtrOK(p) =>
       LET old == GetAt(v, Ptr(p)) IN
       (* what was added is there; what was replaced or removed was there *)
       /\ IsOk(add) /\ ~EndsWith(p, "/-") => Run1(add[2], Op("test", p, x)) = add
       /\ IsOk(rep) = IsOk(old) /\ (p # "" => IsOk(del) = IsOk(old))
       /\ IsOk(rep) => GetAt(rep[2], Ptr(p)) = Ok(x)
       /\ IsOk(old) => Run1(v, Op("test", p, old[2])) = Ok(v) /\ Run1(v, Op("replace", p, old[2])) = Ok(v)
       /\ IsOk(old) = IsOk(Run1(v, Op("copy", "", p)))
       /\ IsOk(old) => Run1(v, Op("test", p, x)) = Err
       (* adding and removing undo each other *)
       /\ (IsOk(add) /\ p # "" /\ (~IsOk(old) \/ IsList(GetAt(v, Front(Ptr(p)))[2])) /\ ~EndsWith(p, "/-")) => Run1(add[2], Op("remove", p, x)) = Ok(v)
       /\ IsOk(del) => Eq(Run1(del[2], Op("add", p, old[2]))[2], v) = "t"
       (* moving is removing and adding, copying is adding *)
       /\ (~Wild(q) /\ PtrOK(q) /\ IsOk(old)) =>
            /\ Run1(v, Op("copy", q, p)) = Run1(v, Op("add", q, old[2]))
            /\ (p # "" /\ ~IsStrictPrefix(Ptr(p), Ptr(q))) => Run1(v, Op("move", q, p)) = Run1(del[2], Op("add", q, old[2]))
            /\ IsStrictPrefix(Ptr(p), Ptr(q)) => ~IsOk(Run1(v, Op("move", q, p)))
  (* a wildcard is every entry there is *)
  /\ (p = "/*" /\ v[1] = "map") => rep = OperateAll(v, Tup([i \in 1..Len(v[2]) |-> Op("replace", "/" \o Replace(Replace(v[2][i][1], "~", "~0", -1), "/", "~1", -1), x)]))
  /\ (p = "/*" /\ IsList(v)) => rep = OperateAll(v, Tup([i \in 1..Len(v[2]) |-> Op("replace", "/" \o ToString(i - 1), x)]))
  /\ (p = "/*/a" /\ v[1] = "map" /\ ~HasKey(v[2], "b/~1")) => add = OperateAll(v, Tup([i \in 1..Len(v[2]) |-> Op("add", "/" \o v[2][i][1] \o "/a", x)]))

---------------------------------------------------------------- (* schemas *)
S(t, more) == Map(<<<<"type", Str(t)>>>> \o more)
Scalars == {S("integer", <<>>), S("integer", <<<<"minimum", IntV(1)>>, <<"exclusiveMaximum", IntV(3)>>>>), S("integer", <<<<"default", IntV(2)>>>>),
  S("float", <<<<"multipleOf", IntV(2)>>>>), S("string", <<<<"minLength", IntV(1)>>, <<"maxLength", IntV(1)>>>>), S("string", <<<<"default", Str("d")>>>>), S("any", <<>>), S("null", <<>>)}
Inner == Scalars \cup {S("array", <<<<"items", x>>>>) : x \in Scalars} \cup {S("object", <<<<"properties", M1("a", x)>>>>) : x \in Scalars}
  \cup {Map(<<<<"oneOf", L2(S("integer", <<>>), S("string", <<>>))>>, <<"type", Str("any")>>>>)}
Objects == {S("object", <<<<"properties", M2("a", x, "b", y)>>>> \o r) : x \in Inner, y \in {S("integer", <<<<"default", IntV(7)>>>>), S("string", <<>>)}, r \in {<<>>, <<<<"required", L1(Str("a"))>>>>, <<<<"additionalProperties", Bool(TRUE)>>>>}}
Data == {Null, IntV(0), IntV(2), IntV(3), F(8), F(6), Str(""), Str("d"), Str("dd"), List(<<>>), L2(IntV(2), Str("d")), Map(<<>>), M1("a", IntV(2)), M1("a", Null), M1("a", Str("d"))}
  \cup {M1("a", x) : x \in {L1(IntV(2)), Map(<<>>), M1("a", IntV(2)), List(<<>>)}} \cup {M2("b", x, "a", y) : x \in {IntV(1), Str("s")}, y \in {IntV(1), Map(<<>>)}} \cup {M2("z", Null, "a", IntV(2))}
RECURSIVE Defaulted(_)
Defaulted(s) == \/ Has(s, "default")
                \/ Has(s, "items") /\ Defaulted(Fld(s, "items"))
                \/ \E i \in 1..Len(Props(s)) : Defaulted(Props(s)[i][2])
(* everything given stays, where it is; what is added is a default or holds  *)
(* nothing else                                                              *)
RECURSIVE Keeps(_, _, _)
Keeps(s, v, w) ==
  CASE v[1] = "map" /\ w[1] = "map" ->
         /\ Len(v[2]) <= Len(w[2])
         /\ \A i \in 1..Len(v[2]) : v[2][i][1] = w[2][i][1] /\ Keeps(IF HasKey(Props(s), v[2][i][1]) THEN GetKey(Props(s), v[2][i][1]) ELSE Null, v[2][i][2], w[2][i][2])
         /\ \A i \in (Len(v[2]) + 1)..Len(w[2]) : HasKey(Props(s), w[2][i][1]) /\ Defaulted(GetKey(Props(s), w[2][i][1]))
    [] IsList(v) /\ IsList(w) -> Len(v[2]) = Len(w[2]) /\ \A i \in 1..Len(v[2]) : Keeps(IF s[1] = "null" THEN Null ELSE Fld(s, "items"), v[2][i], w[2][i])
    [] OTHER -> v[1] = w[1] /\ v[2] = w[2]
SchemaLaws(s, v) ==
  LET c == Cast(s, v, <<>>) f == Conforms(s, v, <<>>) IN
  /\ WellFormed(s) /\ f \in {"t", "f"} /\ c[1] \in {"ok", "err"}
  /\ IsOk(c) => /\ Conforms(s, c[2], <<>>) = "t"
                /\ Cast(s, c[2], <<>>) = c
                /\ Keeps(s, v, c[2])
  /\ (f = "t" /\ ~Defaulted(s)) => c = <<"ok", WithType(v, <<"sch", s>>)>>
  /\ (f = "f" /\ ~Defaulted(s)) => c = <<"err">>
  /\ Conforms(Map(<<<<"oneOf", List(<<s, S("null", <<>>)>>)>>>>), v, <<>>) = Or3(f, B3(v[1] = "null"))
  /\ Conforms(M1("$ref", Str("#/definitions/x")), v, <<>>) = "f"
  /\ Conforms(S("array", <<<<"items", M1("$ref", Str("#/definitions/x"))>>>>), L2(v, v), [x |-> s]) = f
  /\ P("types.assert", <<V("type", s), v>>) = (IF f = "t" THEN <<"ok", v>> ELSE <<"err">>)
  /\ SameType(s, s)
  (* asking for more accepts less, allowing more accepts more *)
  /\ SType(s) = "object" =>
       /\ Conforms(Map(SetKey(s[2], "required", L1(Str("b")))), v, <<>>) = "t" => (v[1] = "map" /\ HasKey(v[2], "b"))
       /\ f = "t" => Conforms(Map(SetKey(s[2], "additionalProperties", Bool(TRUE))), v, <<>>) = "t"
       /\ (f = "t" /\ v[1] = "map") => \A i \in 1..Len(v[2]) : HasKey(Props(s), v[2][i][1]) => Conforms(GetKey(Props(s), v[2][i][1]), v[2][i][2], <<>>) = "t"
  /\ WellTyped(WithType(v, <<"sch", s>>), <<>>) = f

------------------------------------------------------------------- (* text *)
Words == {"", "a", "b", "ab", "aab", "abab", " a", "b \t", "a b", "é", "😀a", "a/b", "//", "A", "Éa"}
Cuts == {"", "a", "b", "ab", "/", " "}
TextLaws(s, t, u) ==
  /\ t \in Cuts => /\ Join(Split(s, t), t) = s
                   /\ t # "" => Len(Split(s, t)) = Len(Split(s \o t, t)) - 1 /\ \A i \in 1..Len(Split(s, t)) : ~HasText(Split(s, t)[i], t)
                   /\ t # "" => Replace(s, t, u, -1) = Join(Split(s, t), u)
                   /\ Replace(s, t, t, -1) = s /\ Replace(s, t, u, 0) = s
                   /\ (t # "" /\ ~HasText(u, t)) => ~HasText(Replace(s, t, u, -1), t) \/ u # ""
                   /\ t # "" => Replace(Replace(s, t, "#", 1), t, "#", 1) = Replace(s, t, "#", 2)
                   /\ HasText(s, t) = (\E i \in 0..Len(s) : StartsWith(From(s, i + 1), t))
  /\ Trim(Trim(s)) = Trim(s) /\ Trim(" " \o s \o "\n") = Trim(s) /\ HasText(s, Trim(s))
  /\ ToUpper(ToUpper(s)) = ToUpper(s) /\ ToLower(ToUpper(s)) = ToLower(s) /\ ToUpper(s \o t) = ToUpper(s) \o ToUpper(t)
  /\ CharLen(s \o t) = CharLen(s) + CharLen(t)
  /\ ~StrLess(s, s) /\ (s = t \/ StrLess(s, t) \/ StrLess(t, s)) /\ ~(StrLess(s, t) /\ StrLess(t, s))
  /\ StrLess(s, t) /\ StrLess(t, u) => StrLess(s, u)
  /\ StrLess(t, u) = StrLess(s \o t, s \o u)
  /\ P("strings.concat", <<Str(s), Str(t), Str(u)>>) = <<"ok", Str(s \o t \o u)>>
  /\ P("strings.join", <<L2(Str(s), Str(t)), Str(u)>>) = <<"ok", Str(s \o u \o t)>>
  /\ P("strings.format", <<Str("%s" \o u \o "%v"), Str(s), Str(t)>>) = <<"ok", Str(s \o u \o t)>>
  (* allow-list entries *)
  /\ StarMatch(s, t) = (s = t) /\ StarMatch("*", s) /\ StarMatch(s \o "*", s \o t) /\ StarMatch("*" \o t, s \o t)
  /\ StarMatch(s \o "*" \o t, s \o u \o t) /\ (StarMatch(s \o "*", t) = StartsWith(t, s)) /\ (StarMatch("*" \o s, t) = EndsWith(t, s))
  /\ StarMatch("*" \o s \o "*", t) = HasText(t, s)

------------------------------------------------------------------ (* paths *)
Names == {"", ".", "..", "a", "a/", "./a", "a/b", "a/../b", "../a", "../../a", "a//b", "a.yisp", "d/e.f/g", "a/b/../../.."}
Rel(p) == ~StartsWith(Clean(p), "..")
PathLaws(p, q, r) ==
  /\ Clean(Clean(p)) = Clean(p) /\ Clean(p \o "/") = Clean(p) /\ Clean("./" \o p) = Clean(p)
  /\ PathJoin(p, PathJoin(q, r)) = PathJoin(PathJoin(p, q), r)
  /\ Clean(p) # "" => PathJoin(Dir(p), Base(p)) = Clean(p)
  /\ PathJoin(p, "..") = Dir(p) \/ Base(p) \in {"", ".."}
  /\ (Rel(p) /\ Rel(q)) => StartsWith(PathJoin(p, q), Clean(p))
  /\ LET base == "http://h/" \o "x/y/z" IN
     /\ UrlRef(base, p) = UrlRef(base, "./" \o p) \/ p = ""
     /\ StartsWith(UrlRef(base, p), "http://h") /\ IsUrl(UrlRef(base, p))
     /\ UrlRef("http://h/a/b", "http://k/c/../d") = "http://k/d"
     /\ UrlRef(base, "/" \o q) = UrlRef("http://h/other", "/" \o q)
     /\ UrlRef(base \o "?v=1", p) = UrlRef(base, p) /\ (p # "" => UrlRef(base, p \o "?v=1") = UrlRef(base, p) \o "?v=1")
  /\ Target("d/m.yisp", p) = PathJoin("d", p) /\ SameSource("d/m.yisp", "m.yisp") /\ (SameSource("d/m.yisp", p) = (PathJoin("d", p) = "d/m.yisp"))
  /\ GlobMatch("*", Base(p)) /\ (HasGlob(p) \/ GlobMatch(p, q) = (p = q))

----------------------------------------------------------------------------
Pool(n) ==
  CASE Section = "values" -> Vals
    [] Section = "ints" -> Nums
    [] Section = "lists" -> (CASE n = 1 -> Lists [] n = 2 -> Items [] n = 3 -> {<<>>, <<IntV(1)>>, <<List(<<>>), L1(Null)>>})
    [] Section = "maps" -> Maps0
    [] Section = "manifests" -> (IF n = 1 THEN Manifests ELSE Patches)
    [] Section = "patch" -> (IF n = 1 THEN Targets ELSE Paths)
    [] Section = "schemas" -> (CASE n = 1 -> Inner \cup Objects [] n = 2 -> Data [] n = 3 -> {0})
    [] Section = "text" -> Words
    [] Section = "paths" -> Names
Holds(t) == CASE Section = "values" -> ValueLaws(t[1], t[2], t[3])
              [] Section = "ints" -> IntLaws(t[1], t[2], t[3])
              [] Section = "lists" -> ListLaws(t[2], t[1], t[3])
              [] Section = "maps" -> MapLaws(t[1], t[2], t[3])
              [] Section = "manifests" -> ManifestLaws(t[1], t[2], t[3])
              [] Section = "patch" -> PatchLaws(t[1], t[2], t[3])
              [] Section = "schemas" -> SchemaLaws(t[1], t[2])
              [] Section = "text" -> TextLaws(t[1], t[2], t[3])
              [] Section = "paths" -> PathLaws(t[1], t[2], t[3])
Init == combo \in {<<x>> : x \in Pool(1)}
Next == Len(combo) = 1 /\ \E x \in Pool(2), y \in Pool(3) : combo' = <<combo[1], x, y>>
Spec == Init /\ [][Next]_combo
Lawful == Len(combo) = 3 => Holds(combo)
=============================================================================
