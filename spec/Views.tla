------------------------------- MODULE Views --------------------------------
(* The ways to look at the result of one program.  Each is a function of the *)
(* evaluated documents alone:                                                *)
(*   yaml, sources, trace  the data, whatever comments and traces are added  *)
(*   special   the same data, functions and types shown by a text            *)
(*   native    the data; the entries of maps have no order                   *)
(*   json      the one document there must be; numbers have no kind          *)
EXTENDS Session

RECURSIVE HasBadNum(_)
HasBadNum(d) == \/ d[1] = "flt" /\ d[2] \in {".nan", ".inf", "-.inf"}
                \/ d[1] = "list" /\ \E i \in 1..Len(d[2]) : HasBadNum(d[2][i])
                \/ d[1] = "map" /\ \E i \in 1..Len(d[2]) : HasBadNum(d[2][i][2])
ShownBy(m, c, special) == Yield(m, [c EXCEPT !.special = special])
View(kind, m, c) ==
  LET y == ShownBy(m, c, kind = "special") IN
  IF y[1] # "ok" \/ kind \notin {"json"} THEN y
  ELSE IF Len(y[2]) # 1 THEN <<"err">>
  ELSE IF HasBadNum(y[2][1]) THEN <<"err">>
  ELSE y

(* does what came out carry the data?                                        *)
RECURSIVE Carries(_, _, _, _)
(* entries in any order *)
AnyOrder(p, q, kind, tab) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : \E j \in 1..Len(q) : p[i][1] = q[j][1] /\ Carries(p[i][2], q[j][2], kind, tab)
Carries(x, o, kind, tab) ==
  CASE x[1] = "list" -> o[1] = "list" /\ Len(x[2]) = Len(o[2]) /\ \A i \in 1..Len(x[2]) : Carries(x[2][i], o[2][i], kind, tab)
    [] x[1] = "map" -> o[1] = "map" /\ AnyOrder(x[2], o[2], kind, tab)
    [] x[1] = "float" /\ kind = "json" -> o = x \/ (o[1] = "int" /\ 4 * o[2] = x[2])
    [] x[1] = "flt" /\ kind = "json" -> o = x \/ o[1] \in {"int", "big"}
    [] x[1] = "ytext" -> Same(x, o, tab)
    [] OTHER -> x[1] = o[1] /\ x[2] = o[2]
CarriesAll(xs, os, kind, tab) ==
  IF kind \in {"native", "json"} THEN Len(xs) = Len(os) /\ \A i \in 1..Len(xs) : Carries(xs[i], os[i], kind, tab)
  ELSE SameDocs(xs, os, tab)
=============================================================================
