------------------------------- MODULE Places -------------------------------
(* Where things come from.  c.places tells where in each source the texts    *)
(* that this is about are written: file -> text -> the places, "line:column" *)
(* ("*name" for the uses of a name, "#" for numbers, whatever the file).     *)
(* A value that is written in a source and only moved about keeps its place: *)
(* the source comment of every such scalar names it; and the report of an    *)
(* error about something written (a name without a value, an operator there  *)
(* is not, a text that does not fit its tag) names the place of that.        *)
EXTENDS Views

Written2(c, f, t) == IF f \notin DOMAIN c.places THEN {}
  ELSE IF t \notin DOMAIN c.places[f] THEN {} ELSE {f \o ":" \o c.places[f][t][i] : i \in 1..Len(c.places[f][t])}
(* the places a scalar may name; {}: nothing is said *)
PlacesOf(v, c) ==
  CASE v[1] = "str" -> Written2(c, v[4], v[2])
    [] v[1] = "int" -> LET t == ToString(v[2]) IN
         UNION {Written2(c, f, "#" \o t) : f \in DOMAIN c.places}
    [] OTHER -> {}
(* of all the scalars of a value, in the order they come out *)
RECURSIVE Leaves(_, _)
RECURSIVE LeavesR(_, _, _, _)
LeavesR(vs, i, c, acc) ==
  IF i > Len(vs) THEN acc
  ELSE LeavesR(vs, i + 1, c, IF vs[i][1] \in Special THEN acc ELSE acc \o Leaves(vs[i], c))
Leaves(v, c) ==
  CASE IsList(v) -> LeavesR(v[2], 1, c, <<>>)
    [] v[1] = "map" -> LeavesR(Tup([i \in 1..Len(v[2]) |-> v[2][i][2]]), 1, c, <<>>)
    [] OTHER -> <<PlacesOf(v, c)>>
AllLeaves(m, c) == LeavesR(TopDocs(m.acc, FALSE), 1, c, <<>>)

Named(at, ps) == ps = {} \/ at \in ps
(* at: the places that were named *)
PlacedWell(m, at, c) ==
  IF m.s = "ok" /\ Yield(m, c)[1] = "ok" THEN
     LET l == AllLeaves(m, c) IN Len(at) = Len(l) /\ \A i \in 1..Len(l) : Named(at[i], l[i])
  ELSE IF m.s = "err" /\ m.why[1] = "at" THEN
     LET ps == Written2(c, m.why[2], m.why[3]) IN ps = {} \/ (Len(at) = 1 /\ at[1] \in ps)
  ELSE TRUE
(* for reports: what should have been named *)
ExpectedPlaces(m, c) == IF m.s = "ok" /\ Yield(m, c)[1] = "ok" THEN AllLeaves(m, c) ELSE IF m.s = "err" /\ m.why[1] = "at" THEN <<Written2(c, m.why[2], m.why[3])>> ELSE <<>>
=============================================================================
