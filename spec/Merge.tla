-------------------------------- MODULE Merge -------------------------------
(* Deep merge of values, and merging manifest patches into manifests.        *)
EXTENDS Schemas

SubSchema(s, k, Known) == IF s[1] = "null" THEN Null
  ELSE LET ps == ResolvedProps(s, Known) IN IF HasKey(ps, k) THEN GetKey(ps, k) ELSE Null
ItemSchema(s, Known) == IF s[1] = "null" THEN Null ELSE Resolve(Fld(s, "items"), Known)
Merges(s) == s[1] # "null" /\ \E i \in 1..Len(Split(Strategy(s), ",")) : Split(Strategy(s), ",")[i] = "merge"
Replaces(s) == s[1] = "null" \/ Strategy(s) \in {"", "replace"}
MergedType(a, b) == IF b[3][1] = "none" THEN a[3] ELSE b[3]

(* the merge of a and the later value b, under a schema (Null: none);        *)
(* <<"ok", value>>, <<"err">> or <<"any">>                                   *)
RECURSIVE DeepMerge(_, _, _, _)
RECURSIVE MergeMaps(_, _, _, _, _, _)
RECURSIVE MergeKeyed(_, _, _, _, _, _)
RECURSIVE KeyedAt(_, _, _, _)
MergeMaps(ps, qs, s, Known, i, acc) ==
  IF i > Len(qs) THEN <<"ok", acc>>
  ELSE LET k == qs[i][1] IN
       IF ~HasKey(ps, k) THEN MergeMaps(ps, qs, s, Known, i + 1, SetKey(acc, k, qs[i][2]))
       ELSE LET r == DeepMerge(GetKey(ps, k), qs[i][2], SubSchema(s, k, Known), Known) IN
            IF r[1] # "ok" THEN r ELSE MergeMaps(ps, qs, s, Known, i + 1, SetKey(acc, k, r[2]))
(* position of the item with this key: 0 none, -1 an item that is no map,    *)
(* -2 silent                                                                 *)
KeyedAt(l, mk, kv, i) ==
  IF i > Len(l) THEN 0
  ELSE IF l[i][1] # "map" THEN -1
  ELSE IF ~HasKey(l[i][2], mk) THEN KeyedAt(l, mk, kv, i + 1)
  ELSE LET e == Eq(GetKey(l[i][2], mk), kv) IN
       IF e = "t" THEN i ELSE IF e = "u" THEN -2 ELSE KeyedAt(l, mk, kv, i + 1)
MergeKeyed(l, m, mk, sub, Known, i) ==
  IF i > Len(m) THEN <<"ok", l>>
  ELSE IF m[i][1] # "map" THEN <<"err">>
  ELSE IF ~HasKey(m[i][2], mk) THEN <<"err">>
  ELSE LET at == KeyedAt(l, mk, GetKey(m[i][2], mk), 1) IN
       CASE at = -1 -> <<"err">>
         [] at = -2 -> <<"any">>
         [] at = 0 -> MergeKeyed(Append(l, m[i]), m, mk, sub, Known, i + 1)
         [] OTHER -> LET r == DeepMerge(l[at], m[i], sub, Known) IN
                     IF r[1] # "ok" THEN r
                     ELSE MergeKeyed([l EXCEPT ![at] = r[2]], m, mk, sub, Known, i + 1)
DeepMerge(a, b, s, Known) ==
  IF a[1] = "map" /\ b[1] = "map" THEN
     LET r == MergeMaps(a[2], b[2], s, Known, 1, a[2]) IN
     IF r[1] # "ok" THEN r ELSE <<"ok", <<"map", r[2], MergedType(a, b)>>>>
  ELSE IF {a[1], b[1]} = {"map", "mod"} \/ (a[1] = "mod" /\ b[1] = "mod") THEN <<"err">>
  ELSE IF IsList(a) /\ IsList(b) THEN
     IF Replaces(s) THEN <<"ok", <<"list", b[2], MergedType(a, b)>>>>
     ELSE IF ~Merges(s) THEN <<"err">>
     ELSE IF MergeKey(s) = "" THEN <<"ok", <<"list", a[2] \o b[2], MergedType(a, b)>>>>
     ELSE LET r == MergeKeyed(a[2], b[2], MergeKey(s), ItemSchema(s, Known), Known, 1) IN
          IF r[1] # "ok" THEN r ELSE <<"ok", <<"list", r[2], MergedType(a, b)>>>>
  ELSE <<"ok", b>>

TypeSchema(v) == IF v[3][1] = "none" THEN Null ELSE v[3][2]
RECURSIVE MergeAllR(_, _, _, _)
MergeAllR(vs, i, acc, Known) ==
  IF i > Len(vs) THEN <<"ok", acc>>
  ELSE LET r == DeepMerge(acc, vs[i], TypeSchema(vs[i]), Known) IN
       IF r[1] # "ok" THEN r ELSE MergeAllR(vs, i + 1, r[2], Known)
MergeAll(vs, Known) == MergeAllR(vs, 1, Null, Known)

--------------------------------------------------------------- (* manifests *)
TextAt(ps, k) == IF HasKey(ps, k) /\ GetKey(ps, k)[1] = "str" THEN GetKey(ps, k)[2] ELSE ""
HasId(v) == v[1] = "map" /\ (HasKey(v[2], "metadata") => GetKey(v[2], "metadata")[1] = "map")
Id(v) == LET m == IF HasKey(v[2], "metadata") THEN GetKey(v[2], "metadata")[2] ELSE <<>>
         IN <<TextAt(v[2], "apiVersion"), TextAt(v[2], "kind"), TextAt(m, "namespace"), TextAt(m, "name")>>
(* one patch, merged into every target it names: the step of the machine     *)
RECURSIVE PatchOneR(_, _, _, _)
PatchOneR(ts, p, i, Known) ==
  IF i > Len(ts) THEN <<"ok", ts>>
  ELSE IF ~HasId(ts[i]) THEN <<"err">>
  ELSE IF Id(ts[i]) # Id(p) THEN PatchOneR(ts, p, i + 1, Known)
  ELSE LET r == DeepMerge(ts[i], p, TypeSchema(ts[i]), Known) IN
       IF r[1] # "ok" THEN r ELSE PatchOneR([ts EXCEPT ![i] = r[2]], p, i + 1, Known)
PatchOne(ts, p, Known) == IF ~HasId(p) THEN <<"err">> ELSE PatchOneR(ts, p, 1, Known)
RECURSIVE PatchAllR(_, _, _, _)
PatchAllR(ts, ps, i, Known) ==
  IF i > Len(ps) THEN <<"ok", ts>>
  ELSE LET r == PatchOne(ts, ps[i], Known) IN
       IF r[1] # "ok" THEN r ELSE PatchAllR(r[2], ps, i + 1, Known)
PatchAll(ts, ps, Known) == PatchAllR(ts, ps, 1, Known)
=============================================================================
