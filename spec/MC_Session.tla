----------------------------- MODULE MC_Session -----------------------------
(* Explores every program over a small alphabet of documents, up to what a   *)
(* program keeps (the view: its bindings, without what nothing refers to any *)
(* more), checks what must hold of every step, and prints a program for      *)
(* every step from every state.  The harness runs each of these programs     *)
(* with the real evaluator.                                                  *)
EXTENDS Session, Json, IOUtils

C == ndJsonDeserialize(IOEnv.CASES)[1]
Letters == 1..Len(C.docs)
VARIABLES session,       \* the session
          history     \* the documents so far
vars == <<session, history>>

Init == session = Start(C) /\ history = <<>>
Next == /\ session.s = "ok"
        /\ Len(history) < C.depth
        /\ \E i \in Letters :
             /\ PrintT(<<"HIST", ToJson(Append(history, i))>>)
             /\ session' = Step(session, C.docs[i], C)
             /\ history' = Append(history, i)
Spec == Init /\ [][Next]_vars

(* --- what a program keeps: the frames its bindings lead to, numbered anew  *)
RECURSIVE FramesIn(_)
FramesIn(v) == CASE v[1] = "lam" -> {v[2][3]}
  [] v[1] = "mod" -> {v[2]}
  [] IsList(v) -> UNION {FramesIn(v[2][i]) : i \in 1..Len(v[2])}
  [] v[1] = "map" -> UNION {FramesIn(v[2][i][2]) : i \in 1..Len(v[2])}
  [] OTHER -> {}
From1(fr, e) == (IF fr[e].p = 0 THEN {} ELSE {fr[e].p}) \cup UNION {FramesIn(fr[e].v[k]) : k \in DOMAIN fr[e].v}
RECURSIVE Reach(_, _)
Reach(fr, S) == LET T == S \cup UNION {From1(fr, e) : e \in S} IN IF T = S THEN S ELSE Reach(fr, T)
Rank(S, e) == IF e = 0 THEN 0 ELSE Cardinality({x \in S : x <= e})
RECURSIVE Renamed(_, _)
Renamed(v, S) == CASE v[1] = "lam" -> [v EXCEPT ![2] = [v[2] EXCEPT ![3] = Rank(S, v[2][3])]]
  [] v[1] = "mod" -> [v EXCEPT ![2] = Rank(S, v[2])]
  [] IsList(v) -> [v EXCEPT ![2] = Tup([i \in 1..Len(v[2]) |-> Renamed(v[2][i], S)])]
  [] v[1] = "map" -> [v EXCEPT ![2] = Tup([i \in 1..Len(v[2]) |-> <<v[2][i][1], Renamed(v[2][i][2], S)>>])]
  [] OTHER -> v
Bindings(st) == LET S == Reach(st.fr, {1}) IN
  {<<Rank(S, e), Rank(S, st.fr[e].p), {<<k, Renamed(st.fr[e].v[k], S)>> : k \in DOMAIN st.fr[e].v}>> : e \in S}
Kept == <<session.s, Bindings(session.st), session.st.cf, IF session.s = "ok" THEN 0 ELSE history>>

(* --- what must hold                                                        *)
(* a scope lies inside one made before it                                    *)
Acyclic == \A e \in 1..Len(session.st.fr) : session.st.fr[e].p < e
(* every function and module refers to scopes that exist                     *)
Shaped == \A e \in 1..Len(session.st.fr) : \A k \in DOMAIN session.st.fr[e].v : FramesIn(session.st.fr[e].v[k]) \subseteq 1..Len(session.st.fr)
(* what has run has run                                                      *)
RunsAddUp == [][IsPrefix(session.st.log, session'.st.log)]_vars
DocsAddUp == [][IsPrefix(session.acc, session'.acc)]_vars
(* the names a document can bind: its anchors and imports, and the anchors   *)
(* in the functions it may call                                              *)
RECURSIVE Anchors(_)
Anchors(n) == (IF n[3] = "" THEN {} ELSE {n[3]}) \cup
  CASE n[1] = "seq" -> (IF n[4] # <<>> /\ HeadName(n[4][1]) = "import" THEN {n[4][i][4][1][4] : i \in {j \in 2..Len(n[4]) : n[4][j][1] = "seq" /\ n[4][j][4] # <<>>}} ELSE {})
                       \cup UNION {Anchors(n[4][i]) : i \in 1..Len(n[4])}
    [] n[1] = "map" -> UNION {Anchors(n[4][i][2]) : i \in 1..Len(n[4])}
    [] OTHER -> {}
RECURSIVE InBodies(_)
InBodies(n) == CASE n[1] = "seq" -> (IF n[4] # <<>> /\ HeadName(n[4][1]) = "lambda" THEN Anchors(n[4][Len(n[4])]) ELSE {})
                                    \cup UNION {InBodies(n[4][i]) : i \in 1..Len(n[4])}
  [] n[1] = "map" -> UNION {InBodies(n[4][i][2]) : i \in 1..Len(n[4])}
  [] OTHER -> {}
Bodies == UNION {InBodies(C.docs[i]) : i \in Letters}
MayBind == [i \in Letters |-> Anchors(C.docs[i]) \cup Bodies]
(* a document binds no other name, and changes no value another name has     *)
OnlyAnchorsBind == [][LET i == history'[Len(history')] IN
  \A k \in DOMAIN session'.st.fr[1].v : k \in MayBind[i] \/ (k \in DOMAIN session.st.fr[1].v /\ session'.st.fr[1].v[k] = session.st.fr[1].v[k])]_vars
(* a scope once made keeps its bindings; a function may learn its own name   *)
ScopesStay == [][\A e \in 2..Len(session.st.fr) : LET x == session.st.fr[e] y == session'.st.fr[e] IN
  /\ x.p = y.p
  /\ \A k \in DOMAIN x.v : y.v[k] = x.v[k] \/ (k \in MayBind[history'[Len(history')]] /\ y.v[k][1] = "lam")
  /\ \A k \in DOMAIN y.v : k \in DOMAIN x.v \/ y.v[k][1] = "lam"]_vars
=============================================================================
