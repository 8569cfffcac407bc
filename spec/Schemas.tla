------------------------------- MODULE Schemas ------------------------------
(* Schemas: which values conform, and what a cast adds.  A schema is the map *)
(* it was written as; Known maps the names $ref can use to schemas.          *)
EXTENDS Values

Fld(s, k) == IF HasKey(s[2], k) THEN GetKey(s[2], k) ELSE Null
Has(s, k) == Fld(s, k)[1] # "null"
Txt(s, k) == IF Has(s, k) THEN Fld(s, k)[2] ELSE ""
IsSchema(s) == s[1] = "map"
SType(s) == Txt(s, "type")

TextFields == {"$id", "$ref", "type", "format", "description", "patchStrategy", "patchMergeKey",
               "x-kubernetes-patch-strategy", "x-kubernetes-patch-merge-key"}
NumFields == {"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"}
NatFields == {"multipleOf", "minLength", "maxLength"}

(* can this map be read as a schema at all? *)
RECURSIVE WellFormed(_)
SubOK(v) == v[1] = "null" \/ WellFormed(v)
SubsOK(v) == v[1] = "null" \/ (IsList(v) /\ \A i \in 1..Len(v[2]) : SubOK(v[2][i]))
WellFormed(s) ==
  /\ s[1] = "map"
  /\ \A k \in TextFields : Fld(s, k)[1] \in {"null", "str"}
  /\ \A k \in NumFields : Fld(s, k)[1] = "null" \/ IsNum(Fld(s, k))
  /\ \A k \in NatFields : Fld(s, k)[1] \in {"null", "int"} \/ (Fld(s, k)[1] = "float" /\ Fld(s, k)[2] % 4 = 0)
  /\ (~Has(s, "required") \/ (IsList(Fld(s, "required")) /\
        \A i \in 1..Len(Fld(s, "required")[2]) : Fld(s, "required")[2][i][1] = "str"))
  /\ (~Has(s, "properties") \/ (Fld(s, "properties")[1] = "map" /\
        \A i \in 1..Len(Fld(s, "properties")[2]) : SubOK(Fld(s, "properties")[2][i][2])))
  /\ SubOK(Fld(s, "items")) /\ SubOK(Fld(s, "returns"))
  /\ SubsOK(Fld(s, "arguments")) /\ SubsOK(Fld(s, "oneOf"))

Required(s) == IF Has(s, "required") THEN {Fld(s, "required")[2][i][2] : i \in 1..Len(Fld(s, "required")[2])} ELSE {}
Props(s) == IF Has(s, "properties") THEN Fld(s, "properties")[2] ELSE <<>>

RefName(r) == IF StartsWith(r, "#") THEN LET p == Split(r, "/") IN p[Len(p)] ELSE r
(* a subschema with its reference followed; Null if it cannot be resolved *)
Resolve(s, Known) ==
  IF s[1] = "map" /\ Txt(s, "$ref") # "" THEN
     IF RefName(Txt(s, "$ref")) \in DOMAIN Known THEN Known[RefName(Txt(s, "$ref"))] ELSE Null
  ELSE s
(* a property whose reference cannot be resolved is not a property *)
ResolvedProps(s, Known) ==
  LET ps == Props(s)
      keep == SelectSeq(ps, LAMBDA p : ~(p[2][1] = "map" /\ Txt(p[2], "$ref") # "" /\ Resolve(p[2], Known)[1] = "null"))
  IN Tup([i \in 1..Len(keep) |-> <<keep[i][1], Resolve(keep[i][2], Known)>>])
Strategy(s) == IF Txt(s, "patchStrategy") # "" THEN Txt(s, "patchStrategy") ELSE Txt(s, "x-kubernetes-patch-strategy")
MergeKey(s) == IF Txt(s, "patchMergeKey") # "" THEN Txt(s, "patchMergeKey") ELSE Txt(s, "x-kubernetes-patch-merge-key")

------------------------------------------------------------ (* conformance *)
(* three-valued: "t" conforms, "f" does not, "u" the specification is silent *)
Not3(a) == CASE a = "t" -> "f" [] a = "f" -> "t" [] OTHER -> "u"
Or3(a, b) == IF a = "t" \/ b = "t" THEN "t" ELSE IF a = "u" \/ b = "u" THEN "u" ELSE "f"
RECURSIVE All3(_, _)
All3(l, i) == IF i > Len(l) THEN "t" ELSE And3(l[i], All3(l, i + 1))
RECURSIVE Any3(_, _)
Any3(l, i) == IF i > Len(l) THEN "f" ELSE Or3(l[i], Any3(l, i + 1))

Cmp3(s, k, v, bad) == IF ~Has(s, k) THEN "t"
  ELSE LET c == NumCmp(v, Fld(s, k)) IN IF c = 2 THEN "u" ELSE B3(c \notin bad)
InRange(s, v) == And3(And3(Cmp3(s, "minimum", v, {-1}), Cmp3(s, "maximum", v, {1})),
                      And3(Cmp3(s, "exclusiveMinimum", v, {-1, 0}), Cmp3(s, "exclusiveMaximum", v, {0, 1})))
NatFld(s, k) == IF Fld(s, k)[1] = "float" THEN Fld(s, k)[2] \div 4 ELSE Fld(s, k)[2]
Multiple(s, v) ==
  IF ~Has(s, "multipleOf") THEN "t"
  ELSE LET m == NatFld(s, "multipleOf") IN
       IF m = 0 THEN "f"
       ELSE CASE v[1] = "int" -> B3(AbsN(v[2]) % AbsN(m) = 0)
              [] v[1] = "float" -> B3(AbsN(v[2]) % (4 * AbsN(m)) = 0)
              [] v[1] = "big" -> LET q == SLDiv(v[2], SL(m)) IN B3(SLCmp(SLMul(q, SL(m)), v[2]) = 0)
              [] OTHER -> "u"

(* two schemas describe the same type *)
RECURSIVE SameType(_, _)
SameSub(a, b) == IF a[1] = "null" \/ b[1] = "null" THEN a[1] = b[1] ELSE SameType(a, b)
SameType(a, b) ==
  IF a[1] = "null" \/ b[1] = "null" THEN a[1] = "null" /\ b[1] = "null"
  ELSE SType(a) = SType(b) /\
    CASE SType(a) \in {"any", "null", "boolean", "integer", "float", "string"} -> TRUE
      [] SType(a) = "array" -> SameSub(Fld(a, "items"), Fld(b, "items"))
      [] SType(a) = "object" ->
           LET p == Props(a) q == Props(b) IN
           Len(p) = Len(q) /\ \A i \in 1..Len(p) : HasKey(q, p[i][1]) /\ SameType(p[i][2], GetKey(q, p[i][1]))
      [] SType(a) = "function" ->
           LET p == IF Has(a, "arguments") THEN Fld(a, "arguments")[2] ELSE <<>>
               q == IF Has(b, "arguments") THEN Fld(b, "arguments")[2] ELSE <<>>
           IN Len(p) = Len(q) /\ (\A i \in 1..Len(p) : SameType(p[i], q[i]))
              /\ SameSub(Fld(a, "returns"), Fld(b, "returns"))
      [] OTHER -> FALSE

RECURSIVE Conforms(_, _, _)
ConformsObject(s, v, Known) ==
  LET ps == v[2]
      props == ResolvedProps(s, Known)
      ap == Fld(s, "additionalProperties")
      aps == Resolve(ap, Known)
      One(p) == IF HasKey(props, p[1]) THEN Conforms(GetKey(props, p[1]), p[2], Known)
                ELSE IF p[1] = "$schema" THEN "t"
                ELSE CASE ap[1] = "null" -> "f"
                       [] ap[1] = "bool" -> B3(ap[2])
                       [] ap[1] = "map" -> IF WellFormed(ap) /\ aps[1] = "map" THEN Conforms(aps, p[2], Known) ELSE "f"
                       [] OTHER -> "f"
  IN And3(B3(\A k \in Required(s) : HasKey(ps, k)), All3(Tup([i \in 1..Len(ps) |-> One(ps[i])]), 1))
ConformsFunction(s, v) ==
  LET args == IF Has(s, "arguments") THEN Fld(s, "arguments")[2] ELSE <<>>
      ps == v[2][1]
      ret == v[2][5]
  IN B3(/\ Len(args) = Len(ps)
        /\ \A i \in 1..Len(ps) : ps[i][2][1] = "none" \/ SameType(args[i], ps[i][2][2])
        /\ (~Has(s, "returns") \/ ret[1] = "none" \/ SameType(Fld(s, "returns"), ret[2])))
Conforms(s, v, Known) ==
  IF s[1] = "null" THEN "f"
  ELSE IF Has(s, "oneOf") THEN
       LET alts == Fld(s, "oneOf")[2] IN Any3(Tup([i \in 1..Len(alts) |-> Conforms(alts[i], v, Known)]), 1)
  ELSE CASE SType(s) = "any" -> "t"
    [] SType(s) = "null" -> B3(v[1] = "null")
    [] SType(s) = "boolean" -> B3(v[1] = "bool")
    [] SType(s) = "integer" -> IF IsInt(v) THEN And3(InRange(s, v), Multiple(s, v)) ELSE "f"
    [] SType(s) = "float" -> IF IsFloat(v) THEN And3(InRange(s, v), Multiple(s, v)) ELSE "f"
    [] SType(s) = "string" ->
         IF v[1] = "ytext" THEN (IF Has(s, "minLength") \/ Has(s, "maxLength") THEN "u" ELSE "t")
         ELSE IF v[1] = "str" THEN
              B3(/\ (~Has(s, "minLength") \/ CharLen(v[2]) >= NatFld(s, "minLength"))
                 /\ (~Has(s, "maxLength") \/ CharLen(v[2]) <= NatFld(s, "maxLength")))
         ELSE B3(Txt(s, "format") = "int-or-string" /\ IsInt(v))
    [] SType(s) = "array" ->
         IF ~IsList(v) THEN "f"
         ELSE IF ~Has(s, "items") THEN "t"
         ELSE LET sub == Resolve(Fld(s, "items"), Known) IN
              IF sub[1] = "null" THEN "f"
              ELSE All3(Tup([i \in 1..Len(v[2]) |-> Conforms(sub, v[2][i], Known)]), 1)
    [] SType(s) = "object" -> IF v[1] = "map" THEN ConformsObject(s, v, Known)
                              ELSE IF v[1] = "mod" THEN "f" ELSE "f"
    [] SType(s) = "function" -> IF v[1] = "lam" THEN ConformsFunction(s, v) ELSE "f"
    [] OTHER -> "f"

---------------------------------------------------------------- (* casting *)
(* whole floats in a default are integers unless the schema asks for a float *)
RECURSIVE DefaultValue(_, _)
DefaultValue(s, d) ==
  CASE d[1] = "float" /\ d[2] % 4 = 0 /\ (s[1] = "null" \/ SType(s) # "float") -> IntV(d[2] \div 4)
    [] d[1] = "int" /\ s[1] # "null" /\ SType(s) = "float" -> V("float", 4 * d[2])
    [] IsList(d) -> List(Tup([i \in 1..Len(d[2]) |-> DefaultValue(IF s[1] = "null" THEN Null ELSE Fld(s, "items"), d[2][i])]))
    [] d[1] = "map" -> Map(SortPairs(Tup([i \in 1..Len(d[2]) |->
         <<d[2][i][1], DefaultValue(IF s[1] # "null" /\ HasKey(Props(s), d[2][i][1]) THEN GetKey(Props(s), d[2][i][1]) ELSE Null, d[2][i][2])>>])))
    [] d[1] = "str" -> StrAt(d[2], "?")
    [] OTHER -> V(d[1], d[2])

(* <<"ok", value>> or <<"err">> *)
RECURSIVE FillIn(_, _)
RECURSIVE FillItems(_, _, _, _)
RECURSIVE FillProps(_, _, _, _)
FillItems(s, l, i, acc) ==
  IF i > Len(l) THEN <<"ok", acc>>
  ELSE LET r == FillIn(s, l[i]) IN IF r[1] = "err" THEN r ELSE FillItems(s, l, i + 1, Append(acc, r[2]))
FillProps(s, props, i, ps) ==      \* props in key order
  IF i > Len(props) THEN <<"ok", ps>>
  ELSE LET k == props[i][1]
           sub == props[i][2]
       IN IF HasKey(ps, k) THEN
               LET r == FillIn(sub, GetKey(ps, k)) IN
               IF r[1] = "err" THEN r ELSE FillProps(s, props, i + 1, SetKey(ps, k, r[2]))
          ELSE IF k \in Required(s) THEN <<"err">>
          ELSE IF sub[1] = "null" THEN FillProps(s, props, i + 1, ps)
          ELSE IF Has(sub, "default") THEN
               LET r == FillIn(sub, DefaultValue(sub, Fld(sub, "default"))) IN
               IF r[1] = "err" THEN r
               ELSE FillProps(s, props, i + 1, SetKey(ps, k, WithType(r[2], <<"sch", sub>>)))
          ELSE IF SType(sub) # "object" THEN FillProps(s, props, i + 1, ps)
          ELSE LET r == FillIn(sub, Map(<<>>)) IN
               IF r[1] = "err" \/ Len(r[2][2]) = 0 THEN FillProps(s, props, i + 1, ps)
               ELSE FillProps(s, props, i + 1, SetKey(ps, k, r[2]))
FillIn(s, v) ==
  IF s[1] = "null" THEN <<"err">>
  ELSE CASE SType(s) = "array" ->
         IF ~IsList(v) THEN <<"err">>
         ELSE IF ~Has(s, "items") THEN <<"ok", v>>
         ELSE LET r == FillItems(Fld(s, "items"), v[2], 1, <<>>) IN
              IF r[1] = "err" THEN r ELSE <<"ok", [v EXCEPT ![2] = r[2]]>>
    [] SType(s) = "object" ->
         IF v[1] # "map" THEN <<"err">>
         ELSE LET r == FillProps(s, SortPairs(Props(s)), 1, v[2]) IN
              IF r[1] = "err" THEN r ELSE <<"ok", [v EXCEPT ![2] = r[2]]>>
    [] OTHER -> <<"ok", v>>

(* <<"ok", value>>, <<"err">> or <<"any">> *)
CastIn(s, v, Known) ==
  LET r == FillIn(s, v) IN
  IF r[1] = "err" THEN r
  ELSE LET c == Conforms(s, r[2], Known) IN
       CASE c = "t" -> <<"ok", WithType(r[2], <<"sch", s>>)>>
         [] c = "f" -> <<"err">>
         [] OTHER -> <<"any">>

CastF == [a \in Any |-> CastIn(a[1], a[2], a[3])]
Cast(s, v, Known) == CastF[<<s, v, Known>>]

(* every typed part of a finished value conforms to its type *)
RECURSIVE WellTyped(_, _)
WellTyped(v, Known) ==
  And3(IF v[3][1] = "none" THEN "t" ELSE Conforms(v[3][2], v, Known),
       CASE IsList(v) -> All3(Tup([i \in 1..Len(v[2]) |-> WellTyped(v[2][i], Known)]), 1)
         [] v[1] = "map" -> All3(Tup([i \in 1..Len(v[2]) |-> WellTyped(v[2][i][2], Known)]), 1)
         [] OTHER -> "t")
=============================================================================
