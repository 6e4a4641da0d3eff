-------------------------------- MODULE Cache -------------------------------
(***************************************************************************)
(* Templates that come from a repository, and the copies webrpc-gen keeps. *)
(*                                                                         *)
(* A version of the templates is [id, files, bad]: main, and those of the  *)
(* files n, x and z that it has; a bad one cannot be parsed.  Kept is      *)
(* [has, v, age], for each source on its own; the age in units of 25       *)
(* minutes.  A step is [op, t, v, n, refresh, cut]:                        *)
(*   publish: the source of target t has version v from now on             *)
(*   break:   the source of target t cannot be fetched from now on         *)
(*   wait:    n units pass                                                 *)
(*   run:     webrpc-gen -target=t, with -refreshCache when refresh;       *)
(*            cut = "none": nothing can be kept during this run;           *)
(*            cut in {first, last, kill}: its writes fail after the first  *)
(*            bytes or before the last ones, or it is killed while writing *)
(***************************************************************************)
EXTENDS Gen

SourceOf(t) == RemoteName(OldTarget(t))
NoVersion == [id |-> "", files |-> << >>, bad |-> FALSE]
Empty_ == [has |-> FALSE, v |-> NoVersion, age |-> 0]
Fresh(v) == [has |-> TRUE, v |-> v, age |-> 0]
Expired(k) == k.age * 25 > 60

\* what a run with these templates prints: z redefines what main says, x what n says, n what main says
Has(v, f) == \E i \in 1..Len(v.files) : v.files[i] = f
Made(v, fetched) ==
  IF v.bad THEN [st |-> "fail", fetched |-> fetched, id |-> "", x |-> "", tail |-> ""]
  ELSE [st |-> "ok", fetched |-> fetched, id |-> v.id,
        x |-> (IF Has(v, "x") THEN "x" ELSE IF Has(v, "n") THEN "n" ELSE "main") \o v.id,
        tail |-> (IF Has(v, "z") THEN "z" ELSE "main") \o v.id]
Failed(st) == [st |-> st, fetched |-> TRUE, id |-> "", x |-> "", tail |-> ""]

\* r: what can be fetched, [up, v]; k: what is kept; the possible << outcome, kept afterwards >>
Runs(r, k, s) ==
  LET u == IF s.cut = "none" THEN Empty_ ELSE k
      fetch == ~u.has \/ s.refresh \/ Expired(u)
  IN IF ~fetch THEN { << Made(k.v, FALSE), k >> }
     ELSE IF ~r.up THEN { << IF u.has THEN Made(k.v, TRUE) ELSE Failed("fail"), k >> }
                        \cup (IF s.cut = "kill" THEN { << Failed("died"), k >> } ELSE {})
     ELSE { << Made(r.v, TRUE), IF s.cut = "none" THEN k ELSE Fresh(r.v) >> }
          \* cut off, it leaves what was kept, or nothing, or all of the new
          \cup (IF s.cut \in {"first", "last", "kill"}
                THEN { << Made(r.v, TRUE), x >> : x \in {k, Empty_} }
                     \cup { << Failed("died"), x >> : x \in {k, Empty_, Fresh(r.v)} } ELSE {})

Older(k, n) == [k EXCEPT !.age = @ + n]

\* the sources of a history; remote and kept: for each source
Sources(steps) == { SourceOf(steps[i].t) : i \in { i \in 1..Len(steps) : steps[i].op # "wait" } }
Remote0(Srcs) == [ s \in Srcs |-> [up |-> FALSE, v |-> NoVersion] ]
Env(R, s) == CASE s.op = "publish" -> [R EXCEPT ![SourceOf(s.t)] = [up |-> TRUE, v |-> s.v]]
               [] s.op = "break" -> [R EXCEPT ![SourceOf(s.t)].up = FALSE]
               [] OTHER -> R

\* K: the possible states of what is kept, for each source; a run must be one that one of them allows
CacheDiff(steps, obs) ==
  LET Srcs == Sources(steps)
      Step(a, i) ==
        LET s == steps[i] src == SourceOf(s.t) IN
        IF a.d # {} THEN a
        ELSE CASE s.op = "wait" -> [a EXCEPT !.K = [ q \in Srcs |-> { Older(k, s.n) : k \in a.K[q] } ]]
               [] s.op = "run" ->
                    LET all == UNION { Runs(a.R[src], k, s) : k \in a.K[src] }
                        fit == { x \in all : x[1] = obs[i] }
                    IN IF fit = {} THEN [a EXCEPT !.d =
                              IF \A x \in all : x[1].fetched # obs[i].fetched THEN {"fetched"}
                              ELSE IF \A x \in all : x[1].st # obs[i].st THEN {"outcome"} ELSE {"templates"}]
                       ELSE [a EXCEPT !.K[src] = { x[2] : x \in fit }]
               [] OTHER -> [a EXCEPT !.R = Env(a.R, s)]
  IN FoldLeft(Step, [R |-> Remote0(Srcs), K |-> [ q \in Srcs |-> {Empty_} ], d |-> {}], [ i \in 1..Len(steps) |-> i ]).d
=============================================================================
