----------------------------- MODULE TraceRepeat ----------------------------
(* Checks recorded histories of evaluations: each shows the data of its      *)
(* program, the same bytes as ever, and leaves every file as it was.         *)
EXTENDS Repeat, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES traceCase, traceStep, machines, shown

Init == /\ traceCase \in 1..Len(Cases)
        /\ traceStep = 0
        /\ machines = Machines(Cases[traceCase])
        /\ shown = Nothing

Next ==
  LET h == Cases[traceCase] IN
  /\ traceStep >= 0 /\ traceStep < Len(h.steps)
  /\ LET s == h.steps[traceStep + 1]
         o == h.obs[traceStep + 1]
         c == h.jobs[s.job]
         y == Means(h, machines, s)
         good == /\ o.s \in {"ok", "err"}
                 /\ Repeats(shown, s, <<o.s, o.bytes>>)
                 /\ o.same
                 /\ CASE y[1] = "ok" -> o.s = "ok" /\ (Known0(shown, s) \/ CarriesAll(y[2], o.out, s.kind, c.ytab))
                      [] y[1] = "err" -> o.s = "err"
                      [] OTHER -> TRUE
         last == traceStep + 1 = Len(h.steps)
     IN /\ IF good THEN TRUE
           ELSE PrintT(<<"MISMATCH", h.id, traceStep + 1>>)
                /\ PrintT(<<"EXPECTED", h.id, ToJson([y |-> y, bytes |-> IF Known0(shown, s) THEN shown[Key(s)] ELSE <<"anything">>, same |-> TRUE])>>)
        /\ IF last THEN PrintT(<<"DONE", h.id, y[1]>>) ELSE TRUE
        /\ traceStep' = IF good THEN traceStep + 1 ELSE -1
        /\ shown' = IF good THEN Remember(shown, s, <<o.s, o.bytes>>) ELSE Nothing
        /\ UNCHANGED <<traceCase, machines>>

Spec == Init /\ [][Next]_<<traceCase, traceStep, machines, shown>>
=============================================================================
