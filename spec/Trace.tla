-------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Conformance: every logged execution of the implementation is compared   *)
(* with the behaviour the specification prescribes for the same input.     *)
(* The log is split into Chunks independent parts (one behaviour each);    *)
(* a behaviour consumes one event per step.  Differences are printed, and  *)
(* every event consumed is counted.                                        *)
(***************************************************************************)
EXTENDS Tmpl, Cache, Stream, IOUtils

Events == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Chunks == 32
Verbose == IOEnv.VERIF_VERBOSE = "1"

VARIABLES chunk, l
vars == << chunk, l >>

(* earlier exports: a hash stands for the exported text, and another      *)
(* schema has another hash                                                *)
HashDiff(seen, S, r) ==
  IF \A i \in 1..Len(seen) : /\ (seen[i][2] = r.text) <=> (seen[i][3] = r.hashtext)
                             /\ seen[i][1] # S => seen[i][3] # r.hashtext
  THEN {} ELSE {"export:hash"}

(* operations applied one after another to an accepted schema *)
OpsDiff(e) ==
  IF e.ops = << >> \/ e.obs.st # "ok" THEN {}
  ELSE LET S0 == RawOf(e)
           Step(acc, i) ==
             LET S1 == OpApply(S0, acc.S, e.ops[i]) r == e.obs.ops[i] x == e.ops[i].op = "export" IN
             [S |-> S1,
              d |-> acc.d \cup OpDiff(S0, S1, e.ops[i], r) \cup (IF x THEN HashDiff(acc.seen, S1, r) ELSE {}),
              seen |-> IF x THEN Append(acc.seen, << S1, r.text, r.hashtext >>) ELSE acc.seen]
       IN FoldLeft(Step, [S |-> S0, d |-> {}, seen |-> << >>], [ i \in 1..Len(e.ops) |-> i ]).d

Diff(e) ==
  CASE e.kind \in {"ridl", "json", "file"} ->
        LET d == OutcomeDiff(Outcome(e), e.obs) IN IF d = {} THEN OpsDiff(e) ELSE d
    [] e.kind = "hist" -> HistoryDiff(e.docs, e.steps, e.obs)
    [] e.kind = "cli" -> CliDiff(e, e.obs)
    [] e.kind = "cache" -> CacheDiff(e.steps, e.obs)
    [] e.kind = "rpc" -> RpcDiff(e.cfg, e.calls, e.obs)
    [] e.kind = "stream" -> StreamDiff(e.cfg, e.calls, e.obs)
    [] e.kind = "suite" -> SuiteDiff(e, e.obs)
    [] e.kind = "tmpl" -> ProgDiff(e, e.obs)
    [] e.kind = "walk" -> WalkDiff(e.of, e.obs)
    [] e.kind = "hashes" -> \* accepted schemas have the same hash exactly when they are the same schema
        LET v == [ i \in 1..Len(e.raws) |-> View(e.raws[i]) ] IN
        IF \A i, j \in 1..Len(v) : (v[i] = v[j]) <=> (e.hs[i] = e.hs[j]) THEN {} ELSE {"hashes"}
    [] OTHER -> {"unknown"}

Init == chunk \in 1..Chunks /\ l = chunk
Check == /\ l <= Len(Events)
         /\ LET e == Events[l]
                d == Diff(e)
            IN /\ PrintT("EV " \o ToString(l) \o " " \o ToJson(d))
               /\ (Verbose => PrintT("EXP " \o ToJson(IF e.kind = "cli" THEN Invoke(e) ELSE IF e.kind \in {"cache", "stream"} THEN e.obs
                                                       ELSE IF e.kind = "suite" THEN Process(e) ELSE IF e.kind = "rpc" THEN [ c \in 1..Len(e.calls) |-> Story(e.cfg, c, e.calls[c], NewCall) ] ELSE IF e.kind = "tmpl" THEN Execute(e.prog, e.opts)
                                                       ELSE IF e.kind = "walk" THEN WalkAll(RawOf(e.of)) ELSE IF e.kind = "hist" THEN [ i \in 1..Len(e.docs) |-> Outcome(e.docs[i]) ] ELSE Outcome(e))))
         /\ l' = l + Chunks
         /\ UNCHANGED chunk
Next == Check
Spec == Init /\ [][Next]_vars
=============================================================================
