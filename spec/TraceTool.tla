------------------------------ MODULE TraceTool -----------------------------
(* Checks recorded histories of the real command line tool, run by run:      *)
(* what each run showed, ran and fetched, and the configuration it left.     *)
EXTENDS Tool, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES traceCase, traceStep, tool, onTrack

Seqs(t) == IF t = <<>> THEN << >> ELSE t
(* a build's result against what is expected of it *)
Result(y, o, tab) ==
  CASE y[1] = "ok" -> o.s = "ok" /\ (Len(y) = 1 \/ SameDocs(y[2], o.out, tab))
    [] y[1] = "err" -> o.s = "err"
    [] OTHER -> o.s \in {"ok", "err", "gone"}
InSome(x, l) == \E i \in 1..Len(l) : l[i] = x
Shown(sh, o, s) ==
  IF s.op = "par" THEN
       /\ \A i \in 1..Len(s.cs) : Result(sh.ys[i], o.all[i], s.cs[i].ytab)
       /\ \A i \in 1..Len(o.reqs) : InSome(o.reqs[i], sh.fetched)
       /\ \A i \in 1..Len(sh.fetched) : InSome(sh.fetched[i], o.reqs)
  ELSE /\ Result(sh.y, o, IF s.op \in {"build", "krm"} THEN s.c.ytab ELSE << >>)
       /\ (sh.s = "any" \/ ((s.nowrite \/ o.log = sh.log) /\ o.reqs = sh.fetched))
SameCfg(cfg, o) ==
  CASE cfg[1] = "nodir" -> o = <<"none">>
    [] OTHER -> o = cfg

Init == /\ traceCase \in 1..Len(Cases)
        /\ traceStep = 0
        /\ tool = NewTool
        /\ onTrack = TRUE

Next ==
  LET h == Cases[traceCase] IN
  /\ onTrack /\ traceStep < Len(h.steps)
  /\ LET s == h.steps[traceStep + 1]
         o == h.obs[traceStep + 1]
         r == Run(tool, s)
         silent == r.sh.s = "any" /\ s.op # "kill"
         last == traceStep + 1 = Len(h.steps)
         good == Shown(r.sh, o, s) /\ SameCfg(CfgOf(r.ts, s.cfg), o.cfg)
     IN /\ IF good THEN TRUE
           ELSE PrintT(<<"MISMATCH", h.id, traceStep + 1>>)
                /\ PrintT(<<"EXPECTED", h.id, ToJson([shows |-> r.sh, cfg |-> CfgOf(r.ts, s.cfg)])>>)
        /\ IF last \/ silent THEN PrintT(<<"DONE", h.id, IF good THEN "ok" ELSE "bad">>) ELSE TRUE
        /\ traceStep' = traceStep + 1
        /\ onTrack' = (good /\ ~silent)
        /\ tool' = IF good /\ ~last THEN r.ts ELSE NewTool
        /\ UNCHANGED traceCase

Spec == Init /\ [][Next]_<<traceCase, traceStep, tool, onTrack>>
=============================================================================
