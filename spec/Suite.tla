------------------------------- MODULE Suite --------------------------------
(***************************************************************************)
(* webrpc-test: the reference schema, the reference server, and the suite   *)
(* that decides whether a server implements the reference API.             *)
(***************************************************************************)
EXTENDS Rpc

(* -------------------------------------------- the reference implementation *)
SOne == "{\"id\":1,\"name\":\"one\"}"
STwo == "{\"id\":2,\"name\":\"two\"}"
SThree == "{\"id\":3,\"name\":\"three\"}"
SUser == "{\"USERNAME\":\"John-Doe\",\"id\":1,\"role\":\"admin\"}"
RefOne == "{\"one\":" \o SOne \o "}"
RefMulti == "{\"one\":" \o SOne \o ",\"three\":" \o SThree \o ",\"two\":" \o STwo \o "}"
RefComplex == "{\"complex\":{\"doubleArray\":[[\"testing\"],[\"api\"]],\"listOfMaps\":[{\"Jakob\":251,\"alice\":2,\"john\":1}],\"listOfUsers\":[" \o SUser
              \o "],\"mapOfUsers\":{\"admin\":" \o SUser \o "},\"meta\":{\"1\":\"23\",\"2\":24},\"metaNestedExample\":{\"1\":{\"2\":1}},"
              \o "\"namesList\":[\"John\",\"Alice\",\"Jakob\"],\"numsList\":[1,2,3,4534643543],\"status\":\"AVAILABLE\",\"user\":" \o SUser \o "}}"
RefValue == [ GetEmpty |-> "{}", GetError |-> "", GetOne |-> RefOne, SendOne |-> RefOne, GetMulti |-> RefMulti, SendMulti |-> RefMulti, GetComplex |-> RefComplex,
              SendComplex |-> RefComplex, GetEnumList |-> "{\"list\":[\"AVAILABLE\",\"NOT_AVAILABLE\"]}", GetEnumMap |-> "{\"map\":{\"READ\":1,\"WRITE\":2}}", GetSchemaError |-> "" ]
RefCodes == {0} \cup { e.code : e \in { x \in Errors : x.code > 0 } }
RefCause == [ c \in RefCodes |-> CASE c = 0 -> "failed to read file: unexpected EOF" [] c = 1 -> "failed to verify JWT token"
                                   [] c = 100 -> "1000 req/min exceeded" [] c = 302 -> ".wav is not supported" [] OTHER -> "" ]
CodeBody(c) == "{\"code\":" \o ToString(c) \o "}"

(* what the reference server answers to a request with a body that decodes *)
Good(v) == [status |-> 200, body |-> {[value |-> v]}]
Bad(e) == [status |-> e.status, body |-> {e}]
RefReply(m, args) ==
  CASE m = "GetError" -> Bad(WithText(0, "internal error"))
    [] m \in {"SendOne", "SendMulti", "SendComplex"} -> IF args = RefValue[m] THEN Good("{}") ELSE Bad(WithText(8, AnyText))
    [] m = "GetSchemaError" -> IF \E c \in RefCodes : CodeBody(c) = args
                               THEN LET c == CHOOSE x \in RefCodes : CodeBody(x) = args IN Bad(WithText(c, RefCause[c])) ELSE Good("{}")
    [] OTHER -> Good(RefValue[m])

(* ------------------------------------------------------------- the suite *)
(* how a server under test answers: "ok" as the reference, "error" with some schema error, "other" with another value of the right
   type, "fewer" with too few values, "junk" with 200 and no JSON, "html" with 500 and no JSON, "drop" with nothing;
   for an error that is asked for: "ok", "none" (success), and each part of it wrong *)
Fetches == << "GetOne", "GetMulti", "GetComplex" >>
Returned(m, a) == CASE a = "ok" -> RefValue[m] [] a = "other" -> "OTHER" [] OTHER -> "NONE"
CallPasses(m, a) ==
  CASE m = "GetEmpty" -> a \in {"ok", "other", "junk", "fewer"}     \* nothing is expected of the body
    [] m = "GetError" -> a \notin {"other", "junk", "fewer"}
    [] m \in {"GetOne", "GetMulti", "GetComplex"} -> a \in {"ok", "other"}
    [] m \in {"SendOne", "SendMulti", "SendComplex"} -> a \in {"ok", "other", "junk", "fewer"}
    [] m \in {"GetEnumList", "GetEnumMap"} -> a \in {"ok", "other"}
CodePasses(c, a) == a \in {"ok", "nocause"}      \* a cause need not be given, but if it is, it is the right one

(* the calls the suite makes, given the answers, and which of them fail *)
Sent(ans, m) == CASE m \in {"SendOne", "SendMulti", "SendComplex"} ->
                       LET g == "G" \o "et" \o SubSeq(m, 5, Len(m)) r == Returned(g, ans[g]) IN << m, r >>
                  [] OTHER -> << m, "" >>
SuiteCalls(ans) == { Sent(ans, m) : m \in RpcMethods \ {"GetSchemaError"} } \cup { << "GetSchemaError", CodeBody(c) >> : c \in RefCodes }
Fails(ans) == { m \in RpcMethods \ {"GetSchemaError"} : ~CallPasses(m, ans[m]) }
Verdict(ans, codes) == Fails(ans) = {} /\ \A i \in 1..Len(codes) : CodePasses(codes[i][1], codes[i][2])

(* ------------------------------------------------------ the command line *)
BoolFlags == {"client", "server", "waitForServer", "version", "print-schema", "printRIDL", "printJSON"}
Dashless(a) == IF StartsWith(a, "--") THEN From(a, 3) ELSE From(a, 2)
IsFlag(a) == Len(a) > 1 /\ Ch(a, 1) = "-" /\ a # "--"
FlagName(a) == LET b == Dashless(a) i == Index(b, "=") IN IF i = 0 THEN b ELSE SubSeq(b, 1, i - 1)
HasVal(a) == Index(Dashless(a), "=") > 0
FlagVal(a) == LET b == Dashless(a) IN From(b, Index(b, "=") + 1)
Trues == {"1", "t", "T", "true", "TRUE", "True"}
Mode(args) == IF args = << >> \/ ~IsFlag(args[1]) \/ FlagName(args[1]) \notin BoolFlags THEN "usage"
              ELSE IF HasVal(args[1]) /\ FlagVal(args[1]) \notin Trues THEN "usage" ELSE FlagName(args[1])
(* the value of a string flag in the rest of the command line; "" if it is not given, "!" if the command line is wrong *)
RECURSIVE FlagsOf(_, _, _)
FlagsOf(args, i, acc) ==
  IF i > Len(args) \/ ~IsFlag(args[i]) THEN acc
  ELSE LET n == FlagName(args[i]) IN
       IF n \notin DOMAIN acc THEN [acc EXCEPT !.bad = "!"]
       ELSE IF HasVal(args[i]) THEN FlagsOf(args, i + 1, [acc EXCEPT ![n] = FlagVal(args[i])])
       ELSE IF i = Len(args) THEN [acc EXCEPT !.bad = "!"]
       ELSE FlagsOf(args, i + 2, [acc EXCEPT ![n] = args[i + 1]])

(* values that a flag takes *)
IsPort(v) == v \in {"P", "TAKEN"} \/ (v # "" /\ IsDigits(v))
IsDuration(v) == \E u \in {"ms", "s", "m"} : Len(v) > Len(u) /\ EndsWith(v, u) /\ IsDigits(SubSeq(v, 1, Len(v) - Len(u)))
(* the process: how it ends and what it shows.  The environment: the servers U (under test: answers as planned), R (right), D (none) *)
Silent == [code |-> 1, calls |-> {}, failed |-> {}, out |-> ""]
RunSuite(e, url) ==
  CASE url = "R" -> [Silent EXCEPT !.code = 0]      \* its log is not kept
    [] url = "U" -> [code |-> IF Verdict(e.answers, e.codes) THEN 0 ELSE 1, calls |-> SuiteCalls(e.answers), failed |-> Fails(e.answers), out |-> ""]
    [] OTHER -> [Silent EXCEPT !.failed = RpcMethods \ {"GetSchemaError", "GetError"}]     \* nobody answers
WaitFor(e, url) == IF url = "R" \/ (url = "U" /\ e.upafter < 50) THEN [Silent EXCEPT !.code = 0, !.out = "ready"] ELSE Silent
Process(e) ==
  LET m == Mode(e.args) c == FlagsOf(e.args, 2, [url |-> "", bad |-> ""]) w == FlagsOf(e.args, 2, [url |-> "", timeout |-> "1m", bad |-> ""])
      s == FlagsOf(e.args, 2, [port |-> "9988", timeout |-> "1m", bad |-> ""]) IN
  CASE m = "version" -> [Silent EXCEPT !.code = 0, !.out = "version"]
    [] m \in {"printRIDL", "print-schema"} -> [Silent EXCEPT !.code = 0, !.out = "ridl"]
    [] m = "printJSON" -> [Silent EXCEPT !.code = 0, !.out = "json"]
    [] m = "client" -> IF c.bad = "!" THEN Silent ELSE RunSuite(e, c.url)
    [] m = "waitForServer" -> IF w.bad = "!" \/ ~IsDuration(w.timeout) THEN Silent ELSE WaitFor(e, w.url)
    [] m = "server" -> IF s.bad = "!" \/ ~IsPort(s.port) \/ ~IsDuration(s.timeout) \/ s.port = "TAKEN" THEN Silent ELSE [Silent EXCEPT !.code = 0, !.out = "served"]
    [] OTHER -> Silent

ReplyDiff(want, got) ==
  IF want.status # got.status THEN {"reply:status"}
  ELSE IF \A w \in want.body : IF "code" \in DOMAIN w THEN "code" \in DOMAIN got.body /\ SameErr(w, got.body) ELSE DOMAIN w = DOMAIN got.body /\ w = got.body THEN {} ELSE {"reply:body"}

SuiteDiff(e, o) ==
  LET x == Process(e) IN
  (IF (x.code = 0) # (o.code = 0) THEN {"exit"} ELSE {})
  \cup (IF x.out # o.out THEN {"output"} ELSE {})
  \cup (IF x.calls # { << o.calls[i][1], o.calls[i][2] >> : i \in 1..Len(o.calls) } \/ Len(o.calls) # Cardinality(x.calls) THEN {"calls"} ELSE {})
  \cup (IF x.failed # { o.failed[i] : i \in 1..Len(o.failed) } THEN {"failed"} ELSE {})
  \cup UNION { ReplyDiff(RefReply(o.served[i].m, o.served[i].args), o.served[i]) : i \in 1..Len(o.served) }
=============================================================================
