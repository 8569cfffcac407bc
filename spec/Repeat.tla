------------------------------- MODULE Repeat -------------------------------
(* Evaluations, one after another, of a few programs: by fresh engines and   *)
(* by engines used before, in several processes, shown in several ways, with *)
(* the schemas they read stored with their keys in another order.            *)
(*   h.jobs   the programs                                                   *)
(*   h.steps  [job, kind, proc, keep, mixed]                                 *)
(* An evaluation is a function of the program and the way it is shown: the   *)
(* first one fixes the bytes all others must show.  What was evaluated       *)
(* before, where, and by which engine is no argument of it.                  *)
(* `shows` remembers what each <<job, kind>> has shown.                      *)
EXTENDS Views

RECURSIVE RunAll(_, _, _)
RunAll(n, i, c) == IF i > Len(c.docs) THEN n ELSE RunAll(Step(n, c.docs[i], c), i + 1, c)
Machines(h) == Tup([j \in 1..Len(h.jobs) |-> RunAll(Start(h.jobs[j]), 1, h.jobs[j])])

Nothing == << >>
(* what a step must show by its meaning                                      *)
Means(h, ms, s) == View(s.kind, ms[s.job], h.jobs[s.job])
(* and by what was shown before                                              *)
Key(s) == <<s.job, s.kind>>
Known0(shows, s) == Key(s) \in DOMAIN shows
Repeats(shows, s, bytes) == Known0(shows, s) => shows[Key(s)] = bytes
Remember(shows, s, bytes) == IF Known0(shows, s) THEN shows ELSE (Key(s) :> bytes) @@ shows
=============================================================================
