----------------------------- MODULE TraceViews -----------------------------
(* Checks what the real tool shows of one program, view by view.             *)
EXTENDS Places, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES traceCase, traceStep, session

RECURSIVE RunAll(_, _, _)
RunAll(n, i, c) == IF i > Len(c.docs) THEN n ELSE RunAll(Step(n, c.docs[i], c), i + 1, c)

Init == /\ traceCase \in 1..Len(Cases)
        /\ traceStep = 0
        /\ session = RunAll(Start(Cases[traceCase]), 1, Cases[traceCase])

Next ==
  LET c == Cases[traceCase] IN
  /\ traceStep >= 0 /\ traceStep < Len(c.views)
  /\ LET o == c.views[traceStep + 1]
         y == View(o.kind, session, c)
         good == /\ o.s \in {"ok", "err"}
                 /\ CASE y[1] = "ok" -> o.s = "ok" /\ CarriesAll(y[2], o.out, o.kind, c.ytab)
                      [] y[1] = "err" -> o.s = "err"
                      [] OTHER -> TRUE
                 /\ o.kind = "places" => PlacedWell(session, o.at, c)
         last == traceStep + 1 = Len(c.views)
     IN /\ IF good THEN TRUE
           ELSE PrintT(<<"MISMATCH", c.id, traceStep + 1>>)
                /\ PrintT(<<"EXPECTED", c.id, ToJson([kind |-> o.kind, y |-> y, places |-> IF o.kind = "places" THEN ExpectedPlaces(session, c) ELSE <<>>])>>)
        /\ IF last THEN PrintT(<<"DONE", c.id, IF session.s = "ok" THEN View("yaml", session, c)[1] ELSE session.s>>) ELSE TRUE
        /\ traceStep' = IF good THEN traceStep + 1 ELSE -1
        /\ UNCHANGED <<traceCase, session>>

Spec == Init /\ [][Next]_<<traceCase, traceStep, session>>
=============================================================================
