---------------------------- MODULE TraceSession ----------------------------
(* Checks recorded runs of the real evaluator against Session: after every   *)
(* document, the outcome of building the documents so far, the data it       *)
(* printed and the programs it ran must be those of the specification.       *)
(* A case that disagrees prints a line and stops.                            *)
EXTENDS Session, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES traceCase, traceStep, session

Agrees(y, o, c) ==
  /\ o.s \in {"ok", "err"}
  /\ CASE y[1] = "ok" -> o.s = "ok" /\ SameDocs(y[2], o.out, c.ytab)
       [] y[1] = "err" -> o.s = "err"
       [] OTHER -> TRUE
(* the programs run: all of them, in order *)
SameLog(l, o) == Len(l) = Len(o) /\ \A i \in 1..Len(l) : l[i] = o[i]

Init == /\ traceCase \in 1..Len(Cases)
        /\ traceStep = 0
        /\ session = Start(Cases[traceCase])

Next ==
  LET c == Cases[traceCase] IN
  /\ traceStep >= 0 /\ traceStep < Len(c.docs)
  /\ LET n == Step(session, c.docs[traceStep + 1], c)
         y == Yield(n, c)
         last == traceStep + 1 = Len(c.docs)
         o == c.obs[IF c.final THEN 1 ELSE traceStep + 1]
         good == \/ c.final /\ ~last
                 \/ Agrees(y, o, c) /\ (n.s = "any" \/ SameLog(n.st.log, o.log))
     IN /\ IF good THEN TRUE
           ELSE PrintT(<<"MISMATCH", c.id, traceStep + 1>>)
                /\ PrintT(<<"EXPECTED", c.id, ToJson([y |-> y, log |-> n.st.log])>>)
        /\ IF last THEN PrintT(<<"DONE", c.id, IF n.s = "ok" THEN y[1] ELSE n.s>>) ELSE TRUE
        /\ traceStep' = (IF good THEN traceStep + 1 ELSE -1)
        /\ session' = IF good /\ ~last THEN n ELSE [st |-> <<>>, acc |-> <<>>, s |-> n.s]
        /\ UNCHANGED traceCase

Spec == Init /\ [][Next]_<<traceCase, traceStep, session>>
=============================================================================
