------------------------------- MODULE Session ------------------------------
(* A program as a state machine: each step evaluates its next document in    *)
(* the state the documents before it have left.                              *)
EXTENDS Yisp

(* bindings made before the program starts (items of a KRM function) *)
RECURSIVE Prebind(_, _, _, _)
Prebind(st, pre, docs, i) ==
  IF i > Len(pre) THEN st
  ELSE LET v == OfTree(pre[i][2], "?")
           w == IF i = 1 /\ docs THEN Docs(v[2]) ELSE v
       IN Prebind(Bind(st, 1, pre[i][1], w), pre, docs, i + 1)
Start(c) == [st |-> Prebind([NewState EXCEPT !.cf = c.confirms], c.pre, c.predocs, 1), acc |-> <<>>, s |-> "ok", why |-> Null]

(* evaluate document d of c in m; a program that has failed stays failed *)
Step(m, d, c) ==
  IF m.s # "ok" THEN m
  ELSE LET r == IF d[1] = "malformed" THEN ErrR(m.st) ELSE IF d[1] = "opaque" THEN AnyR(m.st) ELSE EvalF[<<d, "Q", 1, c.main, m.st, Full(c)>>]
       IN [st |-> r.st, acc |-> IF r.s = "ok" THEN AddDoc(m.acc, r.v) ELSE m.acc, s |-> r.s, why |-> r.v]

(* what a build of the documents so far yields *)
Yield(m, c) == CASE m.s = "ok" -> Output(m.acc, c) [] m.s = "err" -> <<"err">> [] OTHER -> <<"any">>
=============================================================================
