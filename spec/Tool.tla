-------------------------------- MODULE Tool --------------------------------
(* The command line tool as a state machine over what it keeps between runs: *)
(*   caches  directory -> [schemas, gvk, urls]  what it knows of schemas     *)
(*   cfgs    path -> a configuration:                                        *)
(*             <<"none">>           there is no file yet                     *)
(*             <<"list", l, rest>>  the packages allowed and other settings  *)
(*             <<"bad", text>>      a file that cannot be read, as it is     *)
(*             <<"nodir">>          not even a directory for it              *)
(* A step is one run of the tool, or something the user does to the files:   *)
(*   [op |-> "allow", cfg, pkg, nowrite]                                     *)
(*   [op |-> "cache", cfg, dir, confirm, cluster, nowrite]                   *)
(*        cluster: <<"ok", schemas, gvk>> or <<"fail">>                      *)
(*   [op |-> "build", cfg, dir, c, server, nowrite]                          *)
(*        c: the program, as in Session; server: what each address answers,  *)
(*        <<"ok", schema>> or <<"bad">>                                      *)
(*   [op |-> "krm", cfg, dir, c, server, items]   the items still with the   *)
(*        configuration objects of the function                              *)
(*   [op |-> "kill", cfg]     a build that was killed while it fetched       *)
(*   [op |-> "par", cfg, dir, cs, server]   several builds at the same time  *)
(*   [op |-> "other", cfg, ok]              any other command                *)
(*   [op |-> "edit", cfg, to]               the user writes the file         *)
(* nowrite: no file can be written to during the run.                        *)
EXTENDS Session

NoCache == [schemas |-> << >>, gvk |-> << >>, urls |-> << >>]
At(t, k, default) == IF k \in DOMAIN t THEN t[k] ELSE default
Put(t, k, v) == (k :> v) @@ t
CacheOf(ts, d) == At(ts.caches, d, NoCache)
CfgOf(ts, f) == At(ts.cfgs, f, <<"none">>)
NewTool == [caches |-> << >>, cfgs |-> << >>]

(* every run looks for its configuration and makes an empty one if there is  *)
(* none                                                                      *)
Opened(cfg) == IF cfg[1] = "none" THEN <<"list", <<>>, "{}">> ELSE cfg
Allowed(cfg) == IF cfg[1] = "list" THEN cfg[2] ELSE <<>>

(* --- schemas by address: those a run asks the server for, in order, and    *)
(* what the cache then holds                                                 *)
RECURSIVE Fetch(_, _, _, _, _)
Fetch(used, i, urls, server, acc) ==
  IF i > Len(used) THEN <<acc, urls>>
  ELSE LET u == used[i] IN
       IF u \in DOMAIN urls THEN Fetch(used, i + 1, urls, server, acc)
       ELSE Fetch(used, i + 1, IF u \in DOMAIN server /\ server[u][1] = "ok" THEN Put(urls, u, server[u][2]) ELSE urls, server, Append(acc, u))
(* what a schema at an address turns out to be *)
Answers(server, nowrite) ==
  [u \in DOMAIN server |-> IF nowrite THEN <<"bad">> ELSE IF server[u][1] = "ok" /\ ~WellFormed(server[u][2]) THEN <<"bad">> ELSE server[u]]
Urls(cache, answers) == [u \in DOMAIN cache.urls \cup DOMAIN answers |-> IF u \in DOMAIN cache.urls THEN <<"ok", cache.urls[u]>> ELSE answers[u]]

(* --- a build *)
Context(c, cache, answers, cfg) ==
  [c EXCEPT !.schemas = cache.schemas, !.gvk = cache.gvk, !.urls = Urls(cache, answers), !.allowgo = Allowed(cfg)]
RECURSIVE RunFrom(_, _, _)
RunFrom(m, i, c) == IF i > Len(c.docs) THEN m ELSE RunFrom(Step(m, c.docs[i], c), i + 1, c)
Built(c) == RunFrom(Start(c), 1, c)
Build(ts, s, c) ==
  LET cache == CacheOf(ts, s.dir)
      answers == Answers(s.server, s.nowrite)
      cx == Context(c, cache, answers, Opened(CfgOf(ts, s.cfg)) )
      m == Built(cx)
      f == Fetch(m.st.used, 1, cache.urls, answers, <<>>)
  IN [y |-> Yield(m, cx), log |-> m.st.log, fetched |-> f[1], cache |-> [cache EXCEPT !.urls = f[2]], unsure |-> m.s = "any"]

(* --- a KRM function: the items without the function's own configuration    *)
Own(x) == x[1] = "map" /\ \E i \in 1..Len(x[2]) : x[2][i][1] = "apiVersion" /\ x[2][i][2] = <<"str", "krm.yisp.gammalab.net/v1">>
Items(items) == SelectSeq(items, LAMBDA x : ~Own(x))
KrmContext(s) == [s.c EXCEPT !.pre = <<<<"items", <<"list", Items(s.items)>>>>>>, !.predocs = TRUE]

(* --- one step: what it shows and what it leaves                            *)
(* shows: [s, y, log, fetched]: s "ok", "err" or "any"                       *)
Shows(s, y, log, fetched) == [s |-> s, y |-> y, log |-> log, fetched |-> fetched]
Quiet(s) == Shows(s, <<s>>, <<>>, <<>>)
WithCfg(ts, f, cfg) == [ts EXCEPT !.cfgs = Put(ts.cfgs, f, cfg)]
WithCache(ts, d, cache) == [ts EXCEPT !.caches = Put(ts.caches, d, cache)]

RECURSIVE Merged(_, _, _, _)
Merged(ts, s, i, cache) ==
  IF i > Len(s.cs) THEN cache
  ELSE LET b == Build(ts, s, s.cs[i]) IN Merged(ts, s, i + 1, [cache EXCEPT !.urls = b.cache.urls @@ cache.urls])

Run(ts, s) ==
  LET cfg == Opened(CfgOf(ts, s.cfg))
      t0 == WithCfg(ts, s.cfg, cfg)
  IN CASE s.op = "edit" -> [sh |-> Quiet("ok"), ts |-> WithCfg(ts, s.cfg, s.to)]
       [] s.op = "allow" ->
            IF cfg[1] = "list" /\ ~s.nowrite
            THEN [sh |-> Quiet("ok"), ts |-> WithCfg(ts, s.cfg, <<"list", Append(cfg[2], s.pkg), cfg[3]>>)]
            ELSE [sh |-> Quiet("err"), ts |-> t0]
       [] s.op = "cache" ->
            LET log == IF s.confirm THEN <<<<<<"kubectl", "get", "--raw", "/openapi/v2">>, "">>>> ELSE <<>>
                old == CacheOf(ts, s.dir)
            IN IF ~s.confirm \/ s.cluster[1] # "ok" \/ s.nowrite THEN [sh |-> Shows("err", <<"err">>, log, <<>>), ts |-> t0]
               ELSE [sh |-> Shows("ok", <<"ok">>, log, <<>>),
                     ts |-> WithCache(t0, s.dir, [old EXCEPT !.schemas = s.cluster[2] @@ old.schemas, !.gvk = s.cluster[3] @@ old.gvk])]
       [] s.op = "build" -> LET b == Build(ts, s, s.c) IN
            [sh |-> Shows(IF b.unsure THEN "any" ELSE b.y[1], b.y, b.log, b.fetched), ts |-> WithCache(t0, s.dir, b.cache)]
       [] s.op = "krm" -> LET b == Build(ts, s, KrmContext(s)) IN
            [sh |-> Shows(IF b.unsure THEN "any" ELSE b.y[1], b.y, b.log, b.fetched), ts |-> WithCache(t0, s.dir, b.cache)]
       [] s.op = "par" ->
            [sh |-> [s |-> "par", ys |-> Tup([i \in 1..Len(s.cs) |-> Build(ts, s, s.cs[i]).y]),
                     fetched |-> FlattenSeq(Tup([i \in 1..Len(s.cs) |-> Build(ts, s, s.cs[i]).fetched]))],
             ts |-> WithCache(t0, s.dir, Merged(ts, s, 1, CacheOf(ts, s.dir)))]
       [] s.op = "kill" -> [sh |-> Quiet("any"), ts |-> t0]
       [] s.op = "other" -> [sh |-> Quiet(s.ok), ts |-> t0]
=============================================================================
