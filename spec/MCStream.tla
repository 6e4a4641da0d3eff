------------------------------ MODULE MCStream ------------------------------
(* every interleaving of the steps of N streams - of their handlers' writers, their callers, the network - for every choice of plans from a small set *)
EXTENDS Stream, Json, TLC
CONSTANTS N, Set

Nothing == [kind |-> "ok", code |-> 0, text |-> "", value |-> ""]
ErrBy(k, c) == [kind |-> k, code |-> c, text |-> IF k \in {"plain", "panic"} THEN "t" ELSE "", value |-> ""]
Plan(writers, endk) ==
  [raw |-> FALSE, verb |-> "", path |-> "", url |-> "", ct |-> "", bodyok |-> TRUE, pre |-> "", net |-> "", mode |-> "", args |-> "A", writers |-> writers, endk |-> endk,
   hook |-> Nothing, repl |-> Nothing, cut |-> "", keep |-> 0, part |-> FALSE, wait |-> FALSE, how |-> "", wire |-> << >>]
One == << << "a" >> >>
Two == << << "a", "b" >> >>
Par == << << "a", "b" >>, << "c" >> >>
Plans == CASE Set = "order" -> { Plan(Par, Nothing), Plan(Two, ErrBy("err", 100)), Plan(<< << >> >>, Nothing) }
           [] Set = "pairs" -> { Plan(One, Nothing), Plan(One, ErrBy("err", 100)), [Plan(One, Nothing) EXCEPT !.how = "cancel"] }
           [] Set = "ends" -> { Plan(Two, a) : a \in {Nothing, ErrBy("err", 100), ErrBy("plain", 0), ErrBy("panic", 0)} }
                              \cup { [Plan(Two, ErrBy("err", 100)) EXCEPT !.repl = ErrBy("err", -7)] }
                              \cup { [Plan(Two, Nothing) EXCEPT !.hook = ErrBy("err", 100)] }
           [] Set = "breaks" -> { [Plan(Two, Nothing) EXCEPT !.cut = k, !.keep = n, !.part = b] : k \in {"lost", "reset", "eof"}, n \in {0, 1}, b \in BOOLEAN }
           [] Set = "cancels" -> { [Plan(Two, Nothing) EXCEPT !.how = "cancel", !.wait = b] : b \in BOOLEAN }
(* the streams besides the first are plain ones *)
Others == { Plan(One, Nothing) }

VARIABLES cfg, plans, st, log, sched
vars == << cfg, plans, st, log, sched >>
Calls == 1..N

Init == /\ cfg \in [ hook : BOOLEAN, onerr : BOOLEAN, recover : BOOLEAN ] /\ (Set # "ends" => ~cfg.hook /\ ~cfg.onerr /\ cfg.recover)
        /\ plans \in [ Calls -> Plans ] /\ \A c \in Calls \ {1} : plans[c] \in Others
        /\ st = [ c \in Calls |-> NewStream(plans[c]) ] /\ log = << >> /\ sched = << >>

Ev(e) == [e |-> e, ok |-> TRUE]
ErrEv(e, err) == [e |-> e, ok |-> FALSE, err |-> [typed |-> TRUE, ctx |-> TRUE, is |-> << err.code >>] @@ err]
(* the events of a step; they happen one right after the other *)
RECURSIVE After(_, _, _)
After(c, s, evs) == IF evs = << >> THEN [ok |-> TRUE, s |-> s] ELSE LET x == StreamStep(cfg, plans[c], s, Head(evs)) IN IF x.ok THEN After(c, x.s, Tail(evs)) ELSE [ok |-> FALSE]
Do2(c, t, w, evs) == LET x == After(c, st[c], evs) IN
  /\ x.ok /\ st' = [st EXCEPT ![c] = x.s]
  /\ log' = log \o [ i \in 1..Len(evs) |-> [c |-> c, ev |-> evs[i]] ]
  /\ sched' = Append(sched, [c |-> c, t |-> t, w |-> w])
  /\ UNCHANGED << cfg, plans >>

Do1(c, t, evs) == Do2(c, t, 0, evs)

Asked(p) == << [e |-> "send", url |-> StreamPath, verb |-> "POST"],
               [e |-> "request", verb |-> "POST", path |-> StreamPath, ct |-> "application/json", accept |-> "application/json", webrpc |-> StreamHeader, body |-> p.args] >>
Entered(p) == [e |-> "handler", args |-> p.args, m |-> "SubscribeMessages", svc |-> "Chat", name |-> "SubscribeMessages", meta |-> "Chat/SubscribeMessages", path |-> StreamPath]
Open(c) == LET p == plans[c] r == Refusal(cfg, p) hk == IF cfg.hook THEN << Ev("hook") >> ELSE << >> IN
  Do1(c, "S", IF r = NoErr THEN Asked(p) \o hk \o << Entered(p), Ev("open") >>
              ELSE Asked(p) \o hk \o (IF cfg.onerr THEN << [e |-> "onerror", err |-> r] >> ELSE << >>)
                   \o << ErrEv("open", Replaced1(cfg, p, r)), Ev("done") >>)
Write(c, w) == LET p == plans[c] s == st[c] IN
  /\ s.wrote[w] < Len(p.writers[w])
  /\ Do2(c, "W", w, << [e |-> "write", w |-> w, v |-> p.writers[w][s.wrote[w] + 1]], [e |-> "wrote", w |-> w, ok |-> TRUE] >>)
End(c) == LET p == plans[c] s == st[c] IN
  /\ s.srv = "running" /\ AllWrote(p, s) /\ (p.wait => s.cancelled)
  /\ Do1(c, "E", (IF p.wait THEN << Ev("gone") >> ELSE << >>) \o << Ev("ended") >> \o (IF p.endk.kind # "ok" /\ cfg.onerr THEN << [e |-> "onerror", err |-> Fate(p.endk)] >> ELSE << >>))
ReadOne(c) == LET p == plans[c] s == st[c] IN
  \/ \E w \in DOMAIN s.got : s.got[w] < s.wrote[w] /\ Do1(c, "R", << [e |-> "read", v |-> p.writers[w][s.got[w] + 1]] >>)
  \/ /\ s.at = "open" /\ (Broken(p, s) /\ p.part /\ ~s.cancelled => ~AllRead(s) \/ (s.srv = "ended" /\ p.endk.kind # "ok"))   \* there is something to be cut within
     /\ \E err \in StopsWith(cfg, p, s) : Do1(c, "R", << ErrEv("stop", err), Ev("done") >>)
Cancel(c) == plans[c].how = "cancel" /\ ~st[c].cancelled /\ st[c].at = "open" /\ Do1(c, "C", << Ev("cancel") >>)
Step(c) == (st[c].at = "new" /\ Open(c)) \/ (\E w \in DOMAIN st[c].wrote : Write(c, w)) \/ End(c) \/ ReadOne(c) \/ Cancel(c)
Next == \E c \in Calls : Step(c)
Spec == Init /\ [][Next]_vars

Of(c, e) == SelectSeq(log, LAMBDA x : x.c = c /\ x.ev.e = e)
ValuesRead(c) == [ i \in 1..Len(Of(c, "read")) |-> Of(c, "read")[i].ev.v ]
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
(* what was read is, writer by writer, a prefix of what was written *)
PrefixInv == \A c \in Calls : \A w \in DOMAIN plans[c].writers :
  IsPrefixOf(SelectSeq(ValuesRead(c), LAMBDA v : \E i \in DOMAIN plans[c].writers[w] : plans[c].writers[w][i] = v), SubSeq(plans[c].writers[w], 1, st[c].wrote[w]))
(* a stream that is said to be finished was read to its end, and its handler succeeded *)
FinishedInv == \A c \in Calls : \A i \in 1..Len(Of(c, "stop")) :
  (Of(c, "stop")[i].ev.err.code = -10 /\ plans[c].cut = "") => AllRead(st[c]) /\ AllWrote(plans[c], st[c]) /\ plans[c].endk.kind = "ok" /\ Of(c, "ended") # << >>
(* a failing handler is never silent *)
FailedInv == \A c \in Calls : (Of(c, "stop") # << >> /\ plans[c].endk.kind # "ok") => Of(c, "stop")[1].ev.err.code # -10
OnceInv == \A c \in Calls : Len(Of(c, "stop")) + Len(Of(c, "reply")) <= 1 /\ Len(Of(c, "handler")) <= 1 /\ Len(Of(c, "onerror")) <= 1
(* a caller who gave up reads nothing more *)
AbortInv == \A c \in Calls : (st[c].cancelled /\ Of(c, "stop") # << >>) => Of(c, "stop")[1].ev.err.code = -8
Over == \A c \in Calls : st[c].at = "done" /\ st[c].srv \notin {"running"}
(* the judge accepts what the model does *)
JudgeInv == Over => StreamDiff(cfg, plans, [ i \in 1..Len(log) |-> [c |-> log[i].c] @@ log[i].ev ]) = {}
Emitted == Over => PrintT("CASE " \o ToJson([cfg |-> cfg, calls |-> plans, sched |-> sched]))
=============================================================================
