------------------------------- MODULE MCRpc --------------------------------
(* every interleaving of the steps of N concurrent calls, for every choice of their plans out of a small set *)
EXTENDS Rpc, Json, TLC
CONSTANTS N, Set

Nothing == [kind |-> "ok", code |-> 0, text |-> "", value |-> ""]
ErrBy(k, c) == [kind |-> k, code |-> c, text |-> IF k \in {"plain", "panic"} THEN "t" ELSE "", value |-> ""]
Plan(m, hook, hdl, net, repl) ==
  [m |-> m, args |-> "A", bad |-> FALSE, raw |-> FALSE, verb |-> "", path |-> "", url |-> "", ct |-> "", bodyok |-> TRUE, short |-> FALSE, pre |-> "",
   net |-> net, hook |-> hook, hdl |-> hdl, repl |-> repl]
RawPlan(verb, path, ct, bodyok, hook) ==
  [Plan("GetEmpty", hook, Nothing, "", Nothing) EXCEPT !.raw = TRUE, !.verb = verb, !.path = path, !.url = path, !.ct = ct, !.bodyok = bodyok]
J == "application/json"
Plans == CASE Set = "results" -> { Plan(m, Nothing, Nothing, "", Nothing) : m \in {"GetEmpty", "GetOne", "SendOne", "SendMulti", "GetEnumMap"} }
           [] Set = "few" -> { Plan(m, Nothing, Nothing, "", Nothing) : m \in {"GetOne", "SendOne"} }
           [] Set = "failures" -> { Plan("SendOne", Nothing, a, n, Nothing) : a \in {Nothing, ErrBy("err", 3), ErrBy("panic", 0)}, n \in {"", "lost"} }
                                  \cup { Plan("GetOne", a, ErrBy("plain", 0), "", ErrBy("err", 101)) : a \in {Nothing, ErrBy("err", 1)} }
                                  \cup { Plan("GetMulti", Nothing, Nothing, n, Nothing) : n \in {"down", "half"} }
           [] Set = "requests" -> { RawPlan(v, q, t, b, h) : v \in {"POST", "GET"}, q \in {RpcPath("SendOne"), "/rpc/TestApi/"}, t \in {J, "text/plain"},
                                                             b \in BOOLEAN, h \in {Nothing, ErrBy("err", 6)} }

VARIABLES cfg, plans, st, log, sched
vars == << cfg, plans, st, log, sched >>
Calls == 1..N

Init == /\ cfg \in [ hook : BOOLEAN, onerr : BOOLEAN, recover : BOOLEAN, prefix : {""} ]
        /\ (Set \in {"results", "few"} => ~cfg.recover /\ cfg.hook = cfg.onerr)
        /\ (Set = "requests" => ~cfg.recover) /\ (Set = "failures" => cfg.hook = cfg.onerr)
        /\ plans \in [ Calls -> Plans ]
        /\ st = [ c \in Calls |-> NewCall ] /\ log = << >> /\ sched = << >>

(* one step: up to the next place where the call can be held *)
RECURSIVE ToGate(_, _, _)
ToGate(c, s, evs) == LET x == Advance(cfg, c, plans[c], s) e2 == Append(evs, [c |-> c, ev |-> x.ev]) IN
  IF x.ev.e \in {"request", "onerror"} THEN ToGate(c, x.s, e2) ELSE [s |-> x.s, evs |-> e2]
Step(c) == /\ st[c].at # "done"
           /\ LET r == ToGate(c, st[c], << >>) IN st' = [st EXCEPT ![c] = r.s] /\ log' = log \o r.evs
           /\ sched' = Append(sched, c)
           /\ UNCHANGED << cfg, plans >>
Next == \E c \in Calls : Step(c)
Spec == Init /\ [][Next]_vars

Of(c, e) == SelectSeq(log, LAMBDA x : x.c = c /\ x.ev.e = e)
(* a handler runs at most once for a call, and only after its request was admitted *)
OnceInv == \A c \in Calls : Len(Of(c, "handler")) <= 1 /\ Len(Of(c, "reply")) <= 1 /\ Len(Of(c, "onerror")) <= 1
                            /\ (Of(c, "handler") # << >> => Verb(plans[c]) = "POST" /\ MediaType(TypeOf(plans[c])) = J /\ (cfg.hook => plans[c].hook.kind = "ok"))
(* a caller that gets a result gets the one of its own handler *)
ResultInv == \A c \in Calls : (st[c].at = "done" /\ ~plans[c].raw /\ st[c].status = 200) =>
                              Len(Of(c, "handler")) = 1 /\ plans[c].hdl.kind = "ok" /\ Of(c, "handler")[1].ev.m = plans[c].m
(* a failing handler or hook never looks like success *)
FailureInv == \A c \in Calls : (st[c].at = "done" /\ ~plans[c].raw /\ (plans[c].hdl.kind # "ok" \/ (cfg.hook /\ plans[c].hook.kind # "ok"))) => Of(c, "done")[1].ev.ok = FALSE
(* the wire carries the status of the error *)
StatusInv == \A c \in Calls : \A i \in 1..Len(Of(c, "reply")) : LET e == Of(c, "reply")[i].ev IN "code" \in DOMAIN e.body => e.status = e.body.status
(* what a call shows is what it shows alone: nothing leaks between calls *)
AloneInv == \A c \in Calls : LET mine == SelectSeq(log, LAMBDA x : x.c = c) IN
                             st[c].at = "done" => [ i \in 1..Len(mine) |-> mine[i].ev ] = Story(cfg, c, plans[c], NewCall)
Emitted == (\A c \in Calls : st[c].at = "done") => PrintT("CASE " \o ToJson([cfg |-> cfg, calls |-> plans, sched |-> sched]))
=============================================================================
