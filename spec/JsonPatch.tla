------------------------------ MODULE JsonPatch -----------------------------
(* RFC 6902 over yisp values, with '*' segments.  One operation is one step. *)
(* Results are <<"ok", value>>, <<"err">> or <<"any">> (silent).             *)
EXTENDS Schemas

Unescape(t) == Replace(Replace(t, "~1", "/", -1), "~0", "~", -1)
PtrOK(p) == p = "" \/ StartsWith(p, "/")
Ptr(p) == IF p = "" THEN <<>> ELSE LET s == Split(From(p, 2), "/") IN Tup([i \in 1..Len(s) |-> Unescape(s[i])])

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal == [c \in Digits |-> CHOOSE n \in 0..9 : ToString(n) = c]
RECURSIVE NumOf(_, _, _)
NumOf(t, i, acc) == IF i > Len(t) THEN acc ELSE NumOf(t, i + 1, acc * 10 + DigitVal[Ch(t, i)])
IsIndex(t) == /\ t # "" /\ Len(t) < 8 /\ \A i \in 1..Len(t) : Ch(t, i) \in Digits
              /\ (Len(t) > 1 => Ch(t, 1) # "0")
(* spellings RFC 6901 forbids, such as 01: silent *)
OddIndex(t) == ~IsIndex(t) /\ t # "" /\ Ch(t, Len(t)) \in Digits
               /\ \A i \in 1..Len(t) : Ch(t, i) \in (Digits \cup {"+", "-"})
Index(t) == NumOf(t, 1, 0)

Ok(v) == <<"ok", v>>
Err == <<"err">>
Silent == <<"any">>
SetItem(v, i, x) == [v EXCEPT ![2] = [v[2] EXCEPT ![i] = x]]
SetEntry(v, k, x) == [v EXCEPT ![2] = SetKey(v[2], k, x)]

RECURSIVE GetAt(_, _)
GetAt(v, path) ==
  IF path = <<>> THEN Ok(v)
  ELSE CASE v[1] = "map" -> IF HasKey(v[2], path[1]) THEN GetAt(GetKey(v[2], path[1]), Tail(path)) ELSE Err
    [] IsList(v) -> IF OddIndex(path[1]) THEN Silent
                    ELSE IF IsIndex(path[1]) /\ Index(path[1]) < Len(v[2])
                    THEN GetAt(v[2][Index(path[1]) + 1], Tail(path)) ELSE Err
    [] OTHER -> Err

(* map merge of an added map into a map it meets under a wildcard *)
Overlay(old, x) == IF old[1] = "map" /\ x[1] = "map" THEN [old EXCEPT ![2] = SetAll(old[2], x[2])] ELSE x

InsertItem(l, i, x) == SubSeq(l, 1, i) \o <<x>> \o SubSeq(l, i + 1, Len(l))
RemoveItem(l, i) == SubSeq(l, 1, i - 1) \o SubSeq(l, i + 1, Len(l))

(* op \in {"add", "replace", "remove"}; wild: a wildcard has been passed *)
RECURSIVE Apply1(_, _, _, _, _)
RECURSIVE EachR(_, _, _, _, _, _)
Child(v, i) == IF v[1] = "map" THEN v[2][i][2] ELSE v[2][i]
WithChild(v, i, x) == IF v[1] = "map" THEN [v EXCEPT ![2] = [v[2] EXCEPT ![i] = <<v[2][i][1], x>>]] ELSE SetItem(v, i, x)
EachR(op, v, path, x, i, acc) ==
  IF i > Len(v[2]) THEN Ok(acc)
  ELSE LET r == Apply1(op, Child(v, i), path, x, TRUE) IN
       IF r[1] # "ok" THEN r ELSE EachR(op, v, path, x, i + 1, WithChild(acc, i, r[2]))
Apply1(op, v, path, x, wild) ==
  IF path = <<>> THEN
     CASE op = "add" -> Ok(IF wild THEN Overlay(v, x) ELSE x)
       [] op = "replace" -> Ok(x)
       [] OTHER -> IF wild THEN Silent ELSE Err
  ELSE LET t == path[1] rest == Tail(path) IN
  IF t = "*" THEN
     IF v[1] # "map" /\ ~IsList(v) THEN Err
     ELSE IF rest = <<>> /\ op = "remove" THEN Ok([v EXCEPT ![2] = <<>>])
     ELSE EachR(op, v, rest, x, 1, v)
  ELSE IF v[1] = "map" THEN
     IF rest # <<>> THEN
        IF ~HasKey(v[2], t) THEN Err
        ELSE LET r == Apply1(op, GetKey(v[2], t), rest, x, wild) IN
             IF r[1] # "ok" THEN r ELSE Ok(SetEntry(v, t, r[2]))
     ELSE CASE op = "add" -> Ok(SetEntry(v, t, IF wild /\ HasKey(v[2], t) THEN Overlay(GetKey(v[2], t), x) ELSE x))
            [] op = "replace" -> IF HasKey(v[2], t) THEN Ok(SetEntry(v, t, x)) ELSE Err
            [] op = "remove" -> IF HasKey(v[2], t) THEN Ok([v EXCEPT ![2] = DelKey(v[2], t)]) ELSE Err
  ELSE IF IsList(v) THEN
     IF OddIndex(t) THEN Silent
     ELSE LET n == Len(v[2]) IN
     IF rest # <<>> THEN
        IF ~IsIndex(t) \/ Index(t) >= n THEN Err
        ELSE LET r == Apply1(op, v[2][Index(t) + 1], rest, x, wild) IN
             IF r[1] # "ok" THEN r ELSE Ok(SetItem(v, Index(t) + 1, r[2]))
     ELSE IF op = "add" THEN
        IF t = "-" THEN Ok([v EXCEPT ![2] = Append(v[2], x)])
        ELSE IF ~IsIndex(t) \/ Index(t) > n THEN Err
        ELSE IF wild /\ Index(t) < n /\ x[1] = "map" /\ v[2][Index(t) + 1][1] = "map"
             THEN Ok(SetItem(v, Index(t) + 1, Overlay(v[2][Index(t) + 1], x)))
        ELSE Ok([v EXCEPT ![2] = InsertItem(v[2], Index(t), x)])
     ELSE IF ~IsIndex(t) \/ Index(t) >= n THEN Err
     ELSE IF op = "replace" THEN Ok(SetItem(v, Index(t) + 1, x))
     ELSE Ok([v EXCEPT ![2] = RemoveItem(v[2], Index(t) + 1)])
  ELSE Err

PField(o, k) == IF HasKey(o[2], k) THEN GetKey(o[2], k) ELSE <<"absent", 0, NoType>>
(* one operation of a patch *)
Operate(v, o) ==
  IF o[1] # "map" THEN Err
  ELSE LET op == PField(o, "op") path == PField(o, "path")
           val == PField(o, "value") from == PField(o, "from")
  IN IF "ytext" \in {op[1], path[1], from[1]} THEN Silent
     ELSE IF op[1] # "str" \/ path[1] # "str" THEN Err
     ELSE CASE op[2] \in {"add", "replace"} ->
            IF val[1] = "absent" \/ ~PtrOK(path[2]) THEN Err ELSE Apply1(op[2], v, Ptr(path[2]), val, FALSE)
       [] op[2] = "remove" -> IF ~PtrOK(path[2]) THEN Err ELSE Apply1("remove", v, Ptr(path[2]), Null, FALSE)
       [] op[2] = "test" ->
            IF val[1] = "absent" \/ ~PtrOK(path[2]) THEN Err
            ELSE LET g == GetAt(v, Ptr(path[2])) IN
                 IF g[1] # "ok" THEN g
                 ELSE LET e == Eq(g[2], val) IN IF e = "t" THEN Ok(v) ELSE IF e = "f" THEN Err ELSE Silent
       [] op[2] \in {"copy", "move"} ->
            IF from[1] # "str" \/ ~PtrOK(path[2]) THEN Err
            ELSE IF ~PtrOK(from[2]) THEN Err
            ELSE IF op[2] = "move" /\ IsStrictPrefix(Ptr(from[2]), Ptr(path[2])) THEN Err
            ELSE LET g == GetAt(v, Ptr(from[2])) IN
                 IF g[1] # "ok" THEN g
                 ELSE IF op[2] = "copy" THEN Apply1("add", v, Ptr(path[2]), g[2], FALSE)
                 ELSE IF Ptr(from[2]) = <<>> THEN Silent
                 ELSE LET r == Apply1("remove", v, Ptr(from[2]), Null, FALSE) IN
                      IF r[1] # "ok" THEN r ELSE Apply1("add", r[2], Ptr(path[2]), g[2], FALSE)
       [] OTHER -> Err
RECURSIVE OperateAllR(_, _, _)
OperateAllR(v, os, i) ==
  IF i > Len(os) THEN Ok(v)
  ELSE LET r == Operate(v, os[i]) IN IF r[1] # "ok" THEN r ELSE OperateAllR(r[2], os, i + 1)
OperateAll(v, os) == OperateAllR(v, os, 1)
=============================================================================
