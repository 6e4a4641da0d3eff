-------------------------------- MODULE Rpc ---------------------------------
(***************************************************************************)
(* Calls between generated clients and servers of the reference API        *)
(* (tests/schema/test.ridl).  A call walks through                         *)
(*                                                                         *)
(*   new -> sent -> arrived -> hook -> handler -> answer -> replied -> done *)
(*                                                                         *)
(* each transition showing one event; which one depends only on the plan of *)
(* the call itself (what its hook and handler do, what happens on the way): *)
(* calls never disturb each other, in whatever order they take their steps. *)
(* `Advance` gives the next event and the next state of one call.           *)
(***************************************************************************)
EXTENDS Text

Inputs == [ GetEmpty |-> FALSE, GetError |-> FALSE, GetOne |-> FALSE, SendOne |-> TRUE, GetMulti |-> FALSE, SendMulti |-> TRUE,
            GetComplex |-> FALSE, SendComplex |-> TRUE, GetEnumList |-> FALSE, GetEnumMap |-> FALSE, GetSchemaError |-> TRUE ]
RpcMethods == DOMAIN Inputs
Outputs == [ m \in RpcMethods |-> m \in {"GetOne", "GetMulti", "GetComplex", "GetEnumList", "GetEnumMap"} ]
RpcPath(m) == "/rpc/TestApi/" \o m
PathMethod == [ p \in { RpcPath(m) : m \in RpcMethods } |-> CHOOSE m \in RpcMethods : RpcPath(m) = p ]
RpcHeader == "webrpc;gen-golang;Test@v1.0.0"

(* the errors of webrpc and of the schema *)
E(n, c, t, s) == [name |-> n, code |-> c, msg |-> t, status |-> s]
Errors == {
  E("WebrpcEndpoint", 0, "endpoint error", 400), E("WebrpcRequestFailed", -1, "request failed", 400), E("WebrpcBadRoute", -2, "bad route", 404),
  E("WebrpcBadMethod", -3, "bad method", 405), E("WebrpcBadRequest", -4, "bad request", 400), E("WebrpcBadResponse", -5, "bad response", 500),
  E("WebrpcServerPanic", -6, "server panic", 500), E("WebrpcInternalError", -7, "internal error", 500),
  E("WebrpcClientAborted", -8, "request aborted by client", 400), E("WebrpcStreamLost", -9, "stream lost", 400),
  E("Unauthorized", 1, "unauthorized", 401), E("ExpiredToken", 2, "expired token", 401), E("InvalidToken", 3, "invalid token", 401),
  E("Deactivated", 4, "account deactivated", 403), E("ConfirmAccount", 5, "confirm your email", 403), E("AccessDenied", 6, "access denied", 403),
  E("MissingArgument", 7, "missing argument", 400), E("UnexpectedValue", 8, "unexpected value", 400), E("RateLimited", 100, "too many requests", 429),
  E("DatabaseDown", 101, "service outage", 503), E("ElasticDown", 102, "search is degraded", 503), E("NotImplemented", 103, "not implemented", 501),
  E("UserNotFound", 200, "user not found", 400), E("UserBusy", 201, "user busy", 400), E("InvalidUsername", 202, "invalid username", 400),
  E("FileTooBig", 300, "file is too big (max 1GB)", 400), E("FileInfected", 301, "file is infected", 400), E("FileType", 302, "unsupported file type", 400) }
ErrorOf == [ c \in { e.code : e \in Errors } |-> CHOOSE e \in Errors : e.code = c ]
AnyText == "*"    \* a text webrpc is free to word
WithText(c, t) == LET e == ErrorOf[c] IN [name |-> e.name, code |-> e.code, msg |-> e.msg, status |-> e.status, cause |-> t]

(* the text of an error as Go prints it *)
ErrText(c) == LET e == ErrorOf[c] IN e.name \o " " \o ToString(c) \o ": " \o e.msg

(* what the action of a hook or handler comes to *)
Raised(a) == CASE a.kind = "err" -> WithText(a.code, a.text)
               [] a.kind = "plain" -> WithText(0, a.text)
               [] a.kind = "wrapped" -> WithText(0, a.text \o ErrText(a.code))
               [] a.kind = "panic" -> WithText(-6, a.text)
               [] a.kind = "bad" -> WithText(-5, AnyText)

(* a content type, without its parameters *)
MediaType(ct) == LET i == Index(ct, ";") IN ToLower(TrimSpace(IF i = 0 THEN ct ELSE SubSeq(ct, 1, i - 1)))

(* where a service is, given the address of the server *)
PrefixOf(addr) == LET i == Index(addr, "?") j == Index(addr, "#")
                      cut == IF i > 0 THEN SubSeq(addr, 1, i - 1) ELSE IF j > 0 THEN SubSeq(addr, 1, j - 1) ELSE addr
                  IN TrimR(cut, {"/"})
Verb(p) == IF p.raw THEN p.verb ELSE "POST"
PathOf(p) == IF p.raw THEN p.path ELSE RpcPath(p.m)
TypeOf(p) == IF p.raw THEN p.ct ELSE "application/json"
FirstType(ct) == LET i == Index(ct, "|") IN IF i = 0 THEN ct ELSE SubSeq(ct, 1, i - 1)
Target(p) == IF PathOf(p) \in DOMAIN PathMethod THEN PathMethod[PathOf(p)] ELSE ""
ArgText(p) == IF Inputs[Target(p)] THEN p.args ELSE "{}"

NewCall == [at |-> "new", panicked |-> FALSE, err |-> WithText(0, ""), value |-> "", own |-> "", hook |-> "", allow |-> "", status |-> 0, cancel |-> FALSE]
Go(s, ev) == [s |-> s, ev |-> ev]

(* the caller's end of a call *)
CallReturns(s, v) == Go([s EXCEPT !.at = "done", !.status = 200, !.value = v], [e |-> "done", ok |-> TRUE, value |-> v, err |-> {}])
CallFails(p, s, err, canceled) ==
  Go([s EXCEPT !.at = "done", !.status = err.status, !.err = err],
     [e |-> "done", ok |-> FALSE, value |-> "",
      err |-> IF p.raw THEN {[typed |-> FALSE]}
              ELSE {[typed |-> TRUE, name |-> err.name, code |-> err.code, msg |-> err.msg, status |-> err.status, cause |-> err.cause,
                     unwrapped |-> TRUE, canceled |-> canceled, is |-> << err.code >>]}])

RECURSIVE Advance(_, _, _, _)
(* the server decided that the request fails *)
Fail(cfg, c, p, s, err) ==
  LET t == [s EXCEPT !.err = IF p.repl.kind = "err" /\ cfg.onerr THEN WithText(p.repl.code, p.repl.text) ELSE err, !.at = "failed"] IN
  IF cfg.onerr THEN Go(t, [e |-> "onerror", err |-> err]) ELSE Advance(cfg, c, p, t)

Admit(cfg, c, p, s) ==
  LET m == Target(p) IN
  IF Inputs[m] /\ p.raw /\ (p.short \/ ~p.bodyok) THEN Fail(cfg, c, p, s, WithText(-4, AnyText))
  ELSE Go([s EXCEPT !.at = "handler", !.own = ToString(c)],
          [e |-> "handler", m |-> m, args |-> ArgText(p), svc |-> "TestApi", name |-> m, path |-> RpcPath(m), own |-> TRUE, meta |-> "TestApi/" \o m])

Act(cfg, c, p, s, a) == Fail(cfg, c, p, IF a.kind = "panic" THEN [s EXCEPT !.panicked = TRUE] ELSE s, Raised(a))

Advance(cfg, c, p, s) ==
  CASE s.at = "new" ->
        IF ~p.raw /\ p.bad THEN CallFails(p, s, WithText(-1, AnyText), FALSE)
        ELSE IF ~p.raw /\ p.pre = "cancel" THEN CallFails(p, s, WithText(-1, AnyText), TRUE)
        ELSE Go([s EXCEPT !.at = "sent"], [e |-> "send", verb |-> Verb(p), url |-> IF p.raw THEN p.url ELSE PrefixOf(cfg.prefix) \o PathOf(p)])
    [] s.at = "sent" ->
        IF p.net = "down" THEN CallFails(p, s, WithText(-1, "connection refused"), FALSE)
        ELSE Go([s EXCEPT !.at = "arrived"],
                [e |-> "request", verb |-> Verb(p), path |-> IF p.raw THEN PathOf(p) ELSE PrefixOf(cfg.prefix) \o PathOf(p), ct |-> TypeOf(p), accept |-> IF p.raw THEN "" ELSE "application/json", multi |-> IF p.raw THEN "" ELSE "a|b",
                 webrpc |-> IF p.raw THEN "" ELSE RpcHeader, body |-> IF p.raw THEN "" ELSE IF Inputs[p.m] THEN p.args ELSE "null"])
    [] s.at = "arrived" ->
        IF Target(p) = "" THEN Fail(cfg, c, p, s, WithText(-2, AnyText))
        ELSE IF Verb(p) # "POST" THEN Fail(cfg, c, p, [s EXCEPT !.allow = "POST"], WithText(-3, AnyText))
        ELSE IF MediaType(FirstType(TypeOf(p))) # "application/json" THEN Fail(cfg, c, p, s, WithText(-4, AnyText))
        ELSE IF cfg.hook THEN Go([s EXCEPT !.at = "hook", !.hook = ToString(c)], [e |-> "hook", path |-> PathOf(p)])
        ELSE Admit(cfg, c, p, s)
    [] s.at = "hook" -> IF p.hook.kind = "ok" THEN Admit(cfg, c, p, s) ELSE Act(cfg, c, p, s, p.hook)
    [] s.at = "handler" ->
        IF p.hdl.kind = "ok" THEN Advance(cfg, c, p, [s EXCEPT !.at = "answer", !.status = 200, !.value = IF Outputs[Target(p)] THEN p.hdl.value ELSE "{}"])
        ELSE Act(cfg, c, p, s, p.hdl)
    [] s.at = "failed" -> Advance(cfg, c, p, [s EXCEPT !.at = "answer", !.status = s.err.status])
    [] s.at = "answer" ->
        \* a panic goes on after it was reported: without somebody who recovers it, the connection is given up
        IF s.panicked /\ ~cfg.recover THEN CallFails(p, s, WithText(-1, AnyText), FALSE)
        ELSE Go([s EXCEPT !.at = "replied"],
                [e |-> "reply", status |-> s.status, ct |-> "application/json", allow |-> s.allow, webrpc |-> RpcHeader, own |-> s.own, hook |-> s.hook,
                 body |-> IF Verb(p) = "HEAD" THEN [head |-> TRUE] ELSE IF s.status = 200 THEN [value |-> s.value] ELSE s.err])
    [] s.at = "replied" ->
        IF p.raw THEN CallReturns(s, "")
        ELSE CASE p.net = "lost" -> CallFails(p, s, WithText(-1, "connection reset"), FALSE)
               [] p.net = "html" -> CallFails(p, s, WithText(-5, AnyText), FALSE)
               [] p.net \in {"cut", "half"} -> IF s.status # 200 \/ Outputs[p.m] THEN CallFails(p, s, WithText(-5, AnyText), FALSE) ELSE CallReturns(s, "{}")
               [] OTHER -> IF s.status # 200 THEN CallFails(p, s, s.err, FALSE)
                           ELSE IF p.net = "noclose" THEN CallFails(p, s, WithText(-1, AnyText), FALSE)
                           ELSE CallReturns(s, IF Outputs[p.m] THEN s.value ELSE "{}")
    [] OTHER -> Go(s, [e |-> "none"])

(* ------------------------------------------------------ judging a log *)
SameErr(want, got) ==
  /\ DOMAIN want = DOMAIN got
  /\ \A f \in DOMAIN want : want[f] = got[f] \/ (f = "cause" /\ want[f] = AnyText)
SameEvent(want, got) ==
  /\ want.e = got.e
  /\ CASE want.e = "done" -> /\ want.ok = got.ok /\ want.value = got.value
                             /\ (~want.ok => \A w \in want.err : \E g \in {got.err} : SameErr(w, g))
       [] want.e = "onerror" -> SameErr(want.err, got.err)
       [] want.e = "reply" -> /\ \A f \in DOMAIN want \ {"body"} : want[f] = got[f]
                              /\ IF "code" \in DOMAIN want.body THEN "code" \in DOMAIN got.body /\ SameErr(want.body, got.body)
                                 ELSE DOMAIN want.body = DOMAIN got.body /\ want.body = got.body
       [] OTHER -> \A f \in DOMAIN want : f \in DOMAIN got /\ want[f] = got[f]

RpcDiff(cfg, calls, log) ==
  LET Step(acc, i) ==
        IF acc.d # {} THEN acc
        ELSE LET g == log[i] c == g.c IN
             IF c \notin 1..Len(calls) THEN [acc EXCEPT !.d = {"rpc:stray " \o g.e}]
             ELSE LET x == Advance(cfg, c, calls[c], acc.s[c]) IN
                  IF SameEvent(x.ev, g) THEN [acc EXCEPT !.s[c] = x.s] ELSE [acc EXCEPT !.d = {"rpc:" \o x.ev.e \o (IF x.ev.e # g.e THEN " but " \o g.e ELSE "")}]
      r == FoldLeft(Step, [s |-> [ c \in 1..Len(calls) |-> NewCall ], d |-> {}], [ i \in 1..Len(log) |-> i ])
  IN IF r.d # {} THEN r.d ELSE IF \A c \in 1..Len(calls) : r.s[c].at = "done" THEN {} ELSE {"rpc:unfinished"}

(* the events of a call, alone *)
RECURSIVE Story(_, _, _, _)
Story(cfg, c, p, s) == IF s.at = "done" THEN << >> ELSE LET x == Advance(cfg, c, p, s) IN << x.ev >> \o Story(cfg, c, p, x.s)
=============================================================================
