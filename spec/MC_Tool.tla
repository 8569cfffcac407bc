------------------------------- MODULE MC_Tool ------------------------------
(* Explores every history of the command line tool over a small alphabet of  *)
(* steps, up to what it keeps (the view), checks what must hold of every     *)
(* step, and prints a history for every step from every state it reaches.    *)
(* The harness runs each of these histories with the real tool.              *)
EXTENDS Tool, Json, IOUtils

Alphabet == ndJsonDeserialize(IOEnv.CASES)[1]
Letters == 1..Len(Alphabet.steps)
VARIABLES tool,      \* what the tool keeps
          history,    \* the steps that led here
          shownLast       \* what the last of them showed
vars == <<tool, history, shownLast>>

Init == tool = NewTool /\ history = <<>> /\ shownLast = Quiet("ok")
Next == \E i \in Letters :
  LET r == Run(tool, Alphabet.steps[i]) IN
  /\ PrintT(<<"HIST", ToJson(Append(history, i))>>)
  /\ tool' = r.ts
  /\ shownLast' = r.sh
  /\ history' = Append(history, i)
Spec == Init /\ [][Next]_vars
Kept == tool
(* no list of packages longer than this is taken further                     *)
WithinBounds == \A f \in DOMAIN tool.cfgs : tool.cfgs[f][1] = "list" => Len(tool.cfgs[f][2]) <= Alphabet.longest

By == Alphabet.steps[history'[Len(history')]]
Caches == DOMAIN tool.caches
(* every kind leads to a definition that is there                            *)
CacheIsClosed == \A d \in Caches : LET c == tool.caches[d] IN \A k \in DOMAIN c.gvk : c.gvk[k] \in DOMAIN c.schemas

(* C22 *)
OnlyAllowAdds == [][\A f \in DOMAIN tool.cfgs :
  (tool.cfgs[f][1] = "list" /\ ~(By.op = "edit" /\ By.cfg = f)) =>
     \/ tool'.cfgs[f] = tool.cfgs[f]
     \/ By.op = "allow" /\ By.cfg = f /\ tool'.cfgs[f] = <<"list", Append(tool.cfgs[f][2], By.pkg), tool.cfgs[f][3]>>]_vars
UnreadableIsKept == [][\A f \in DOMAIN tool.cfgs :
  (tool.cfgs[f][1] \in {"bad", "nodir"} /\ ~(By.op = "edit" /\ By.cfg = f)) => tool'.cfgs[f] = tool.cfgs[f]]_vars
(* C25: what is cached stays as it is, and is never asked for again          *)
CacheOnlyGrows == [][\A d \in Caches : \A u \in DOMAIN tool.caches[d].urls :
  u \in DOMAIN tool'.caches[d].urls /\ tool'.caches[d].urls[u] = tool.caches[d].urls[u]]_vars
NeverAskedTwice == [][By.op \in {"build", "krm", "par"} =>
  \A i \in 1..Len(shownLast'.fetched) : shownLast'.fetched[i] \notin DOMAIN CacheOf(tool, By.dir).urls]_vars
(* C21 *)
KindsOnlyByCaching == [][By.op # "cache" => \A d \in DOMAIN tool'.caches :
  tool'.caches[d].gvk = CacheOf(tool, d).gvk /\ tool'.caches[d].schemas = CacheOf(tool, d).schemas]_vars
(* a command that fails leaves everything, except that what was fetched      *)
(* before the failure stays cached                                           *)
FailureKeeps == [][(By.op \in {"allow", "cache", "kill"} /\ shownLast'.s # "ok") =>
  /\ tool'.caches = tool.caches
  /\ \A f \in DOMAIN tool.cfgs : tool.cfgs[f][1] # "none" => tool'.cfgs[f] = tool.cfgs[f]]_vars
(* a step touches only the configuration and the cache it was given          *)
Apart == [][/\ \A f \in DOMAIN tool.cfgs : f # By.cfg => tool'.cfgs[f] = tool.cfgs[f]
            /\ By.op \notin {"edit", "allow", "kill", "other"} => \A d \in Caches : d # By.dir => tool'.caches[d] = tool.caches[d]]_vars
=============================================================================
