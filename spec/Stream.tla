------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* Streaming methods.  A call opens a stream; its handler - one or several *)
(* writers at a time - writes messages into it and returns; the caller     *)
(* reads.  Handler and caller take their steps in any order: a step is     *)
(* named by the event it shows, `StreamStep` tells whether a stream in     *)
(* state s may show event g, and what its state is then.  What one stream  *)
(* does never depends on another.                                          *)
(*                                                                         *)
(*   caller:  new -> asked -> open -> reading ... -> stopped -> done       *)
(*   server:  none -> arrived (-> hook) -> running -> ended (-> told)      *)
(*                                                                         *)
(* What a caller has read is, writer by writer, a prefix of what was       *)
(* written; it stops once, for the reason for which the stream ended.      *)
(***************************************************************************)
EXTENDS Suite

StreamErrors == { E("WebrpcEndpoint", 0, "endpoint error", 400), E("WebrpcRequestFailed", -1, "request failed", 400), E("WebrpcBadRoute", -2, "bad route", 404),
  E("WebrpcBadMethod", -3, "bad method", 405), E("WebrpcBadRequest", -4, "bad request", 400), E("WebrpcBadResponse", -5, "bad response", 500),
  E("WebrpcServerPanic", -6, "server panic", 500), E("WebrpcInternalError", -7, "internal error", 500), E("WebrpcClientAborted", -8, "request aborted by client", 400),
  E("WebrpcStreamLost", -9, "stream lost", 400), E("WebrpcStreamFinished", -10, "stream finished", 200), E("EmptyUsername", 100, "Username must be provided.", 400) }
StreamErrorOf == [ c \in { e.code : e \in StreamErrors } |-> CHOOSE e \in StreamErrors : e.code = c ]
StreamErr(c, t) == LET e == StreamErrorOf[c] IN [name |-> e.name, code |-> e.code, msg |-> e.msg, status |-> e.status, cause |-> t]
StreamErrText(c) == LET e == StreamErrorOf[c] IN e.name \o " " \o ToString(c) \o ": " \o e.msg
StreamPath == "/v1/Chat/SubscribeMessages"
StreamHeader == "webrpc;gen-golang;webrpc-sse-chat@v1.0.0"

Fate(a) == CASE a.kind = "err" -> StreamErr(a.code, a.text)
             [] a.kind = "plain" -> StreamErr(0, a.text)
             [] a.kind = "wrapped" -> StreamErr(0, a.text \o StreamErrText(a.code))
             [] a.kind = "panic" -> StreamErr(-6, a.text)

(* what the error hook makes of an error *)
Replaced1(cfg, p, err) == IF cfg.onerr /\ p.repl.kind = "err" THEN StreamErr(p.repl.code, p.repl.text) ELSE err

(* why a request does not get as far as a handler, if so *)
NoErr == StreamErr(-10, "")
StreamTarget(p) == IF PathOf(p) = "/v1/Chat/SendMessage" THEN "SendMessage" ELSE IF PathOf(p) = StreamPath THEN "SubscribeMessages" ELSE ""
Early(p) ==
  IF ~p.raw THEN NoErr
  ELSE IF StreamTarget(p) = "" THEN StreamErr(-2, AnyText)
  ELSE IF p.verb # "POST" THEN StreamErr(-3, AnyText)
  ELSE IF MediaType(FirstType(p.ct)) # "application/json" THEN StreamErr(-4, AnyText)
  ELSE NoErr
HookFails(cfg, p) == cfg.hook /\ p.hook.kind # "ok"
Refusal(cfg, p) == IF Early(p) # NoErr THEN Early(p)
                   ELSE IF HookFails(cfg, p) THEN Fate(p.hook)
                   ELSE IF p.raw /\ ~p.bodyok THEN StreamErr(-4, AnyText) ELSE NoErr

(* a stream in the making *)
NewStream(p) == [at |-> "new", srv |-> "none", wrote |-> [ w \in 1..Len(p.writers) |-> 0 ], got |-> [ w \in 1..Len(p.writers) |-> 0 ], line |-> 0,
                 cancelled |-> FALSE, told |-> {}, gone |-> FALSE]
Read(s) == FoldLeft(LAMBDA a, i : a + s.got[i], 0, [ i \in 1..Len(s.got) |-> i ])
AllWrote(p, s) == \A w \in DOMAIN s.wrote : s.wrote[w] = Len(p.writers[w])
AllRead(s) == s.got = s.wrote

(* the connection breaks once the caller got p.keep messages *)
Broken(p, s) == p.cut # "" /\ Read(s) = p.keep
BreakEnds(p) == CASE p.cut = "lost" -> {StreamErr(-9, AnyText)}
                  [] p.cut = "reset" -> {StreamErr(-5, AnyText)}
                  \* an answer that ends in the regular way, after a whole message or within one
                  [] p.cut = "eof" -> IF p.part THEN {StreamErr(-10, AnyText), StreamErr(-9, AnyText), StreamErr(-5, AnyText)} ELSE {StreamErr(-10, AnyText)}

(* how a stream ends that nobody cut or gave up *)
Ends(cfg, p) ==
  CASE p.endk.kind = "ok" -> {StreamErr(-10, AnyText)}
    [] p.endk.kind = "panic" -> {Replaced1(cfg, p, Fate(p.endk))} \cup (IF cfg.recover THEN {} ELSE {StreamErr(-9, AnyText)})
    [] OTHER -> {Replaced1(cfg, p, Fate(p.endk))}

(* answers that no webrpc server gave: lines of text, one after another *)
WireAt(p, i) == IF i > Len(p.wire) THEN [k |-> "end", v |-> "", err |-> NoErr] ELSE p.wire[i]
RECURSIVE WireNext(_, _)
WireNext(p, i) == IF WireAt(p, i).k = "blank" THEN WireNext(p, i + 1) ELSE i
WireEnds(x) == CASE x.k = "err" -> {x.err} [] x.k = "junk" -> {StreamErr(-5, AnyText)} [] x.k = "end" -> {StreamErr(-10, AnyText)}
                 [] x.k = "half" -> {StreamErr(-10, AnyText), StreamErr(-9, AnyText), StreamErr(-5, AnyText)} [] OTHER -> {}

StopsWith(cfg, p, s) ==
  IF s.cancelled THEN {StreamErr(-8, AnyText)}
  ELSE (IF p.mode = "wire" THEN WireEnds(WireAt(p, WireNext(p, s.line + 1)))
             ELSE IF Broken(p, s) THEN BreakEnds(p)
             ELSE IF s.srv \in {"ended", "told"} /\ AllRead(s) THEN Ends(cfg, p) ELSE {})

No == [ok |-> FALSE]
Yes(s) == [ok |-> TRUE, s |-> s]
On(b, s) == IF b THEN Yes(s) ELSE No
ErrIs(want, got) == SameErr(want, [ f \in DOMAIN want |-> got[f] ])

(* what the caller is told of an error *)
Shown(err, g) == /\ g.err.typed /\ ErrIs(err, g.err)
                 /\ g.err.is = (IF err.code \in DOMAIN StreamErrorOf THEN << err.code >> ELSE << >>)

StreamStep(cfg, p, s, g) ==
  CASE g.e = "send" -> On(s.at = "new" /\ (p.pre = "" \/ p.raw) /\ g.url = (IF p.raw THEN p.url ELSE StreamPath) /\ g.verb = Verb(p), [s EXCEPT !.at = "asked"])
    [] g.e = "request" -> On(s.at = "asked" /\ s.srv = "none" /\ p.net = "" /\ g.verb = Verb(p) /\ g.path = (IF p.raw THEN p.path ELSE StreamPath)
                             /\ (~p.raw => g.ct = "application/json" /\ g.accept = "application/json" /\ g.webrpc = StreamHeader /\ g.body = p.args), [s EXCEPT !.srv = "arrived"])
    [] g.e = "hook" -> On(s.srv = "arrived" /\ cfg.hook /\ Early(p) = NoErr, [s EXCEPT !.srv = "hook"])
    [] g.e = "handler" -> On(s.srv = (IF cfg.hook THEN "hook" ELSE "arrived") /\ Refusal(cfg, p) = NoErr /\ g.args = p.args /\ g.m = "SubscribeMessages"
                             /\ g.svc = "Chat" /\ g.name = "SubscribeMessages" /\ g.meta = "Chat/SubscribeMessages" /\ g.path = StreamPath, [s EXCEPT !.srv = "running"])
    [] g.e = "write" -> On(s.srv = "running" /\ s.wrote[g.w] < Len(p.writers[g.w]) /\ g.v = p.writers[g.w][s.wrote[g.w] + 1], [s EXCEPT !.wrote[g.w] = @ + 1])
    [] g.e = "wrote" -> On(g.ok \/ s.cancelled \/ p.cut # "", s)
    \* the caller is no longer there
    [] g.e = "gone" -> On(s.srv = "running" /\ (s.cancelled \/ p.cut # ""), [s EXCEPT !.gone = TRUE])
    [] g.e = "ended" -> On(s.srv = "running" /\ (AllWrote(p, s) \/ s.gone \/ p.cut # "") /\ (p.wait => s.gone), [s EXCEPT !.srv = "ended"])
    [] g.e = "onerror" ->
        On(/\ cfg.onerr /\ s.told = {}
           /\ \/ s.srv \in {"arrived", "hook"} /\ Refusal(cfg, p) # NoErr /\ ErrIs(Refusal(cfg, p), g.err)
              \/ s.srv = "ended" /\ p.endk.kind # "ok" /\ ErrIs(Fate(p.endk), g.err), [s EXCEPT !.told = {g.err}])
    [] g.e = "open" ->
        IF g.ok THEN On(s.at = "asked" /\ (p.mode = "wire" \/ (Refusal(cfg, p) = NoErr /\ s.srv # "none")), [s EXCEPT !.at = "open"])
        ELSE On(\/ s.at = "new" /\ p.pre = "cancel" /\ Shown(StreamErr(-1, AnyText), g)
                \/ s.at = "asked" /\ p.net = "down" /\ Shown(StreamErr(-1, AnyText), g)
                \/ s.at = "asked" /\ p.mode = "bad" /\ Shown(StreamErr(-5, AnyText), g)
                \/ s.at = "asked" /\ s.srv # "none" /\ HookFails(cfg, p) /\ p.hook.kind = "panic" /\ ~cfg.recover /\ Shown(StreamErr(-1, AnyText), g)
                \/ s.at = "asked" /\ s.srv # "none" /\ Refusal(cfg, p) # NoErr /\ (cfg.onerr => s.told # {}) /\ Shown(Replaced1(cfg, p, Refusal(cfg, p)), g), [s EXCEPT !.at = "stopped"])
    [] g.e = "cancel" -> On(s.at = "open", [s EXCEPT !.cancelled = TRUE])
    [] g.e = "read" ->
        IF p.mode = "wire"
        THEN LET i == WireNext(p, s.line + 1) IN On(s.at = "open" /\ ~s.cancelled /\ WireAt(p, i).k = "msg" /\ g.v = WireAt(p, i).v, [s EXCEPT !.line = i])
        ELSE LET ws == { w \in DOMAIN s.got : s.got[w] < s.wrote[w] /\ p.writers[w][s.got[w] + 1] = g.v } IN
             IF s.at = "open" /\ ~s.cancelled /\ ~Broken(p, s) /\ ws # {} THEN Yes([s EXCEPT !.got[CHOOSE w \in ws : TRUE] = @ + 1]) ELSE No
    [] g.e = "stop" -> On(s.at = "open" /\ \E err \in StopsWith(cfg, p, s) : Shown(err, g) /\ (s.cancelled => g.err.ctx), [s EXCEPT !.at = "stopped"])
    \* the whole answer, as a caller sees it who is no webrpc client
    [] g.e = "reply" ->
        On(/\ s.at = "asked" /\ p.raw /\ g.webrpc = StreamHeader /\ s.srv # "none"
           /\ LET r == Refusal(cfg, p) IN
              IF r # NoErr THEN /\ g.status = Replaced1(cfg, p, r).status /\ g.ct = "application/json" /\ (r.code = -3 => g.allow = "POST") /\ (cfg.onerr => s.told # {})
                                /\ (p.verb # "HEAD" => "code" \in DOMAIN g.body /\ ErrIs(Replaced1(cfg, p, r), g.body))
              ELSE /\ g.status = 200 /\ g.ct = "application/x-ndjson" /\ g.cache = "no-store" /\ g.sniff = "nosniff" /\ g.first /\ s.srv = "ended"
                   /\ g.lines = p.writers[1]
                   /\ IF p.endk.kind = "ok" THEN g.errs = << >> ELSE Len(g.errs) = 1 /\ ErrIs(Replaced1(cfg, p, Fate(p.endk)), g.errs[1]), [s EXCEPT !.at = "stopped"])
    \* after the end nothing more is read
    [] g.e = "again" -> On(s.at = "stopped" /\ (~g.ok \/ p.mode = "wire"), s)
    [] g.e = "done" -> On(s.at = "stopped", [s EXCEPT !.at = "done"])
    [] OTHER -> No

StreamDiff(cfg, calls, log) ==
  LET Step(acc, i) ==
        IF acc.d # {} THEN acc
        ELSE LET g == log[i] c == g.c IN
             IF c \notin 1..Len(calls) THEN [acc EXCEPT !.d = {"stream:stray " \o g.e}]
             ELSE LET x == StreamStep(cfg, calls[c], acc.s[c], g) IN IF x.ok THEN [acc EXCEPT !.s[c] = x.s] ELSE [acc EXCEPT !.d = {"stream:" \o g.e}]
      r == FoldLeft(Step, [s |-> [ c \in 1..Len(calls) |-> NewStream(calls[c]) ], d |-> {}], [ i \in 1..Len(log) |-> i ])
      \* every failure is told to the error hook
      Untold(c) == LET s == r.s[c] IN cfg.onerr /\ s.told = {} /\ s.srv # "none" /\ (Refusal(cfg, calls[c]) # NoErr \/ (s.srv = "ended" /\ calls[c].endk.kind # "ok"))
  IN IF r.d # {} THEN r.d
     ELSE IF \E c \in 1..Len(calls) : r.s[c].at # "done" \/ r.s[c].srv = "running" THEN {"stream:unfinished"}
     ELSE IF \E c \in 1..Len(calls) : Untold(c) THEN {"stream:untold"} ELSE {}
=============================================================================
