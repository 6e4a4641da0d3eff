--------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* webrpc-gen: from the command line to the output.                        *)
(*                                                                         *)
(* An invocation is a record                                               *)
(*   [files, cwd, args, env, exe, version, embedded, cache]                *)
(* files: the file system, each file with its template role (tmpl) and     *)
(* label; env: [has, val], the schema version of the environment;          *)
(* embedded: sequence of <<name, version>>; cache: the templates fetched   *)
(* earlier, a sequence of [target, fresh, info, tmpl, label].              *)
(* No remote source can be reached.                                        *)
(***************************************************************************)
EXTENDS History

\* --------------------------- the command line --------------------------
StrFlags == {"schema", "schemaVersion", "target", "out", "service", "ignore", "match"}
BoolFlags == {"version", "fmt", "refreshCache", "silent", "methodTreeShake"}
EnvVersion == "$WEBRPC_SCHEMA_VERSION"
NoFlags == [schema |-> "", schemaVersion |-> EnvVersion, target |-> "", out |-> "", service |-> "", ignore |-> "", match |-> "",
            version |-> FALSE, fmt |-> TRUE, refreshCache |-> FALSE, silent |-> FALSE, methodTreeShake |-> FALSE]
Trues == {"1", "t", "T", "TRUE", "true", "True"}
Falses == {"0", "f", "F", "FALSE", "false", "False"}

Before(s, sep) == LET i == Index(s, sep) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
AfterFirst(s, sep) == LET i == Index(s, sep) IN IF i = 0 THEN "" ELSE From(s, i + Len(sep))

ArgName(a) == TrimL(Before(a, "="), {"-"})
ArgBad(a) == ~StartsWith(Before(a, "="), "-") \/ ArgName(a) = ""
IsHelp(a) == ArgName(a) \in {"h", "help"}
IsFlag(a) == ArgName(a) \in StrFlags \cup BoolFlags
\* what webrpc-gen reads itself, in order, and what it hands to the template
CliArgs(args) == SelectSeq(args, LAMBDA a : IsFlag(a) \/ IsHelp(a))
OptArgs(args) == SelectSeq(args, LAMBDA a : ~IsFlag(a))
OptName(a) == IF IsHelp(a) THEN "help" ELSE ArgName(a)
OptVal(a) == IF IsHelp(a) THEN "" ELSE AfterFirst(a, "=")
\* a later option of the same name replaces an earlier one
Options(args) ==
  LET os == OptArgs(args) IN
  { << OptName(os[i]), OptVal(os[i]) >> : i \in { i \in 1..Len(os) : \A j \in (i + 1)..Len(os) : OptName(os[j]) # OptName(os[i]) } }

RECURSIVE ReadFlags(_, _, _)
ReadFlags(cli, i, F) ==
  IF i > Len(cli) THEN [st |-> "ok", F |-> F]
  ELSE LET a == cli[i]
           n == From(a, IF StartsWith(a, "--") THEN 3 ELSE 2)
           has == HasSub(n, "=")
           name == Before(n, "=")
           val == AfterFirst(n, "=")
       IN IF n = "" \/ Ch(n, 1) \in {"-", "="} THEN [st |-> "bad", F |-> F]
          ELSE IF name \in {"h", "help"} THEN [st |-> "help", F |-> F]
          ELSE IF name \in BoolFlags THEN
            IF ~has \/ val \in Trues THEN ReadFlags(cli, i + 1, [F EXCEPT ![name] = TRUE])
            ELSE IF val \in Falses THEN ReadFlags(cli, i + 1, [F EXCEPT ![name] = FALSE])
            ELSE [st |-> "bad", F |-> F]
          ELSE IF has THEN ReadFlags(cli, i + 1, [F EXCEPT ![name] = val])
          ELSE IF i < Len(cli) THEN ReadFlags(cli, i + 2, [F EXCEPT ![name] = cli[i + 1]])
          ELSE [st |-> "bad", F |-> F]

\* ------------------------------ the target -----------------------------
IsLocal(t) == StartsWith(t, "/") \/ StartsWith(t, ".")
OldTarget(t) == CASE t = "go" -> "github.com/webrpc/gen-golang@v0.6.0"
                  [] t = "ts" -> "github.com/webrpc/gen-typescript@v0.6.0"
                  [] t = "js" -> "github.com/webrpc/gen-javascript@v0.6.0"
                  [] OTHER -> t
Tag_(p) == "github.com/webrpc/gen-" \o p[1] \o "@" \o p[2]
Forms(p) == { p[1], p[1] \o "@" \o p[2], "github.com/webrpc/gen-" \o p[1], Tag_(p) }
ParentOf(p) == LET s == Split(p, "/") IN Join(SubSeq(s, 1, Len(s) - 1), "/")
RemoteName(t) == IF Len(Split(t, "/")) = 1 THEN "github.com/webrpc/gen-" \o ToLower(t) ELSE t

\* how templates behave: main (prints what it is given), help (prints help when asked for, else as main),
\* part (has no "main"), bad (does not parse), fail (fails), exit (ends with status 3)
Tmpl(role, label, tag) == [role |-> role, label |-> label, tag |-> tag]
NoTmpl == Tmpl("none", "", "")
Templates(e, t, refresh) ==
  LET em == { i \in 1..Len(e.embedded) : t \in Forms(e.embedded[i]) }
      dir == Root_(AbsPath(e.cwd, t))
      here == { i \in 1..Len(e.files) : EndsWith(e.files[i].path, ".go.tmpl") /\ ParentOf(e.files[i].path) = dir }
      role(r) == { i \in here : e.files[i].tmpl = r }
      mains == here \ (role("part") \cup role("bad"))
      rt == RemoteName(t)
      c == { i \in 1..Len(e.cache) : e.cache[i].target = rt }
  IN IF em # {} THEN LET p == e.embedded[CHOOSE i \in em : TRUE] IN Tmpl("main", p[1], Tag_(p))
     ELSE IF IsLocal(t) THEN
       IF here = {} \/ role("bad") # {} \/ mains = {} THEN NoTmpl
       ELSE LET i == CHOOSE i \in mains : TRUE IN Tmpl(e.files[i].tmpl, e.files[i].label, t)
     \* kept templates are used while they are fresh, and whenever the source cannot be reached
     ELSE IF c = {} THEN NoTmpl
     ELSE LET k == e.cache[CHOOSE i \in c : TRUE] IN Tmpl(k.tmpl, k.label, IF k.fresh /\ ~refresh THEN TrimSpace(k.info) ELSE rt)

\* Go source and how it is formatted; anything else cannot be formatted
GoSources == { << "package p\nvar  X=1", "package p\n\nvar X = 1\n" >>, << "package p\n", "package p\n" >>,
               << "package p\n\nfunc f( ) {\nreturn }\n", "package p\n\nfunc f() {\n\treturn\n}\n" >> }
IsGolang(t) == Before(t, "@") \in {"golang", "go"} \/ EndsWith(Before(t, "@"), "gen-golang")

\* what generating comes to: st in {"json", "debug", "vars", "text", "help", "err", "exit"}
Gen(e, target, F, opts) ==
  LET t == OldTarget(target)
      T == Templates(e, t, F.refreshCache)
      asked == \E o \in opts : o[1] = "help"
      srcs == { o \in opts : o[1] = "src" }
      R(st) == [st |-> st, T |-> T, text |-> "", unformatted |-> FALSE]
      fmt == F.fmt /\ IsGolang(t)
  IN CASE target \in {"json", "debug"} -> R(target)
       [] target \notin {"json", "debug"} ->
            CASE T.role \in {"none", "bad", "part", "fail"} -> R("err")
              [] T.role = "exit" -> R("exit")
              [] T.role = "help" /\ asked -> R("help")
              [] T.role = "main" /\ T.label = "golang" /\ srcs # {} ->
                   LET s == (CHOOSE o \in srcs : TRUE)[2]
                       f == { g \in GoSources : g[1] = s }
                   IN IF ~fmt THEN [R("text") EXCEPT !.text = s]
                      ELSE IF f = {} THEN [R("text") EXCEPT !.text = s, !.unformatted = TRUE]
                      ELSE [R("text") EXCEPT !.text = (CHOOSE g \in f : TRUE)[2]]
              [] OTHER -> [R("vars") EXCEPT !.unformatted = fmt /\ T.label # "golang"]

\* ----------------------------- the schema ------------------------------
AnnotationsBad(text) == LET ps == Split(text, ",") IN \E i \in 1..Len(ps) : ~HasSub(ps[i], "@")
Asked(text) ==
  LET ps == Split(text, ",")
      one(i) == LET x == AfterFirst(ps[i], "@") IN << Before(x, ":"), AfterFirst(x, ":") >>
      last == { i \in 1..Len(ps) : \A j \in (i + 1)..Len(ps) : one(j)[1] # one(i)[1] }
  IN SetToSeq({ one(i) : i \in last })
EmptySchema == [bad |-> FALSE, webrpc |-> "", name |-> "", version |-> "", basepath |-> "", types |-> << >>, errors |-> << >>, services |-> << >>]
Described(e, S, F) ==
  LET S1 == IF S.basepath = "" /\ S.services # << >> THEN [S EXCEPT !.basepath = "/rpc/"] ELSE S
      S2 == IF F.schemaVersion # EnvVersion THEN [S1 EXCEPT !.version = F.schemaVersion]
            ELSE IF e.env.has /\ e.env.val # "" THEN [S1 EXCEPT !.version = e.env.val] ELSE S1
      names == Split(F.service, ",")
      S3 == IF F.methodTreeShake /\ F.service # "" THEN Shake(S.types, S2, names) ELSE S2
      S4 == IF F.service # "" THEN Services(S3, names) ELSE S3
      S5 == IF F.ignore # "" THEN Ignore_(S4, Asked(F.ignore)) ELSE S4
  IN IF F.match # "" THEN Match_(S5, Asked(F.match)) ELSE S5

\* ------------------------------ the output -----------------------------
\* rc: exit status; where: nowhere, stdout or file; err: what of the target is shown on stderr
Res(rc, where) == [rc |-> rc, where |-> where, path |-> "", stdout |-> "", err |-> "", S |-> EmptySchema, g |-> << >>, F |-> NoFlags]
\* showing the usage also shows what the target says of itself
Usage(e, rc, F, opts) ==
  IF F.target = "" THEN Res(rc, "none")
  ELSE LET g == Gen(e, F.target, [NoFlags EXCEPT !.fmt = FALSE], opts) IN
       CASE g.st = "exit" -> Res(3, "none")
         [] g.st = "help" -> [Res(0, "none") EXCEPT !.err = "help"]
         [] g.st = "err" -> Res(rc, "none")
         [] OTHER -> [Res(rc, "none") EXCEPT !.err = IF g.st = "debug" THEN "text" ELSE g.st, !.g = g, !.F = F]

IsDir(e, p) == p = "" \/ \E i \in 1..Len(e.files) : StartsWith(e.files[i].path, p \o "/")
IsFile(e, p) == \E i \in 1..Len(e.files) : e.files[i].path = p /\ ~EndsWith(p, "/")
Writable(e, p) == /\ ~IsDir(e, p)
                  /\ \A k \in 1..(Len(Split(p, "/")) - 1) : ~IsFile(e, Join(SubSeq(Split(p, "/"), 1, k), "/"))

Invoke(e) ==
  LET opts == Options(e.args)
      P == ReadFlags(CliArgs(e.args), 1, NoFlags)
      F == P.F
  IN IF \E i \in 1..Len(e.args) : ArgBad(e.args[i]) THEN Res(1, "none")
     ELSE IF P.st = "bad" THEN Usage(e, 2, F, opts)
     ELSE IF P.st = "help" THEN Usage(e, 0, F, opts)
     ELSE IF F.version THEN [Res(0, "none") EXCEPT !.stdout = "version"]
     ELSE IF F.schema = "" THEN Usage(e, 1, F, opts)
     ELSE IF OpenOutcome(e.files, e.cwd, F.schema).st # "ok" THEN Res(1, "none")
     ELSE IF F.target = "" THEN Res(1, "none")
     ELSE IF F.ignore # "" /\ F.match # "" THEN Res(1, "none")
     ELSE IF (F.ignore # "" /\ AnnotationsBad(F.ignore)) \/ (F.match # "" /\ AnnotationsBad(F.match)) THEN Res(1, "none")
     ELSE LET S == Described(e, OpenRaw(e.files, e.cwd, F.schema), F)
              g == Gen(e, F.target, F, opts)
              R == [Res(0, "none") EXCEPT !.S = S, !.g = g, !.F = F]
              p == Root_(AbsPath(e.cwd, F.out))
          IN CASE g.st = "err" -> Res(1, "none")
               [] g.st = "exit" -> Res(3, "none")
               [] g.st = "help" -> [Res(0, "none") EXCEPT !.err = "help"]
               [] OTHER ->
                    IF F.out \in {"", "stdout"} THEN [R EXCEPT !.where = "stdout", !.stdout = g.st]
                    ELSE IF ~Writable(e, p) THEN Res(1, "none")
                    ELSE [R EXCEPT !.where = "file", !.path = p, !.stdout = IF F.silent THEN "" ELSE "summary",
                                   !.rc = IF g.unformatted /\ ~F.silent THEN 1 ELSE 0]

\* ----------------------------- conformance -----------------------------
WebrpcErrors == <<
  << "0", "WebrpcEndpoint", "endpoint error", "400" >>, << "-1", "WebrpcRequestFailed", "request failed", "400" >>,
  << "-2", "WebrpcBadRoute", "bad route", "404" >>, << "-3", "WebrpcBadMethod", "bad method", "405" >>,
  << "-4", "WebrpcBadRequest", "bad request", "400" >>, << "-5", "WebrpcBadResponse", "bad response", "500" >>,
  << "-6", "WebrpcServerPanic", "server panic", "500" >>, << "-7", "WebrpcInternalError", "internal error", "500" >>,
  << "-8", "WebrpcClientAborted", "request aborted by client", "400" >>, << "-9", "WebrpcStreamLost", "stream lost", "400" >>,
  << "-10", "WebrpcStreamFinished", "stream finished", "200" >> >>

CodeGen(T) == LET s == Split(T.tag, "/") IN s[Len(s)]
GenHeader(e, r, hash) ==
  LET cg == CodeGen(r.g.T) v == AfterFirst(cg, "@") IN
  "webrpc@" \o e.version \o ";" \o Before(cg, "@") \o "@" \o (IF v = "" THEN "unknown" ELSE v) \o ";"
    \o r.S.name \o "@" \o (IF r.S.version = "" THEN "v0.0.0-" \o hash ELSE r.S.version)

If(c, t) == IF c THEN {} ELSE {t}
\* o: what the output says, in the terms of r: what it must say
VarsDiff(e, r, o) ==
  LET cg == CodeGen(r.g.T) IN
  Tag("schema", ViewDiff(View(r.S), View(o.S)))
  \cup If(o.hashok, "hash")
  \cup If(Elems(o.opts) = Options(e.args), "opts")
  \cup If(o.gen = r.g.T.label, "templates")
  \cup If(o.codegen = << cg, Before(cg, "@"), AfterFirst(cg, "@") >>, "codegen")
  \cup If(o.header = GenHeader(e, r, o.hash), "webrpc header")
  \cup If(o.target = r.F.target, "target variable")
  \cup If(o.version = e.version, "version variable")
  \cup If(o.names = << r.S.webrpc, r.S.name, r.S.version >>, "schema variables")
  \cup If(o.command = Join(<< e.exe >> \o e.args, " "), "command variable")
  \cup If(o.errors = WebrpcErrors, "webrpc errors")

\* the report says what was used and what was written; kept templates are at least ten minutes old, or two hours
Kept(e, r) == { i \in 1..Len(e.cache) : e.cache[i].target = RemoteName(OldTarget(r.F.target)) }
FromKept(e, r) == r.F.target \notin {"json", "debug"} /\ ~IsLocal(OldTarget(r.F.target)) /\ ~\E i \in 1..Len(e.embedded) : OldTarget(r.F.target) \in Forms(e.embedded[i])
SummaryDiff(e, r, o) ==
  LET kept == FromKept(e, r)
      k == e.cache[CHOOSE i \in Kept(e, r) : TRUE]
  IN If(o.version = e.version, "reported version")
     \cup If(o.target = (IF r.F.target \in {"json", "debug"} THEN r.F.target ELSE r.g.T.tag), "reported target")
     \cup If(o.schema = r.F.schema /\ o.out = r.F.out, "reported files")
     \cup If(o.cache = (IF ~kept THEN "none" ELSE IF k.fresh /\ ~r.F.refreshCache THEN "kept" ELSE "failed"), "reported templates")
     \cup If(kept => o.hours = (IF k.fresh THEN 0 ELSE 2), "reported age")
     \cup If(o.format = r.g.unformatted, "reported format error")
Kind(st) == IF st = "debug" THEN "text" ELSE st
ContentDiff(e, r, o) ==
  IF o.kind # Kind(r.g.st) THEN {"output"}
  ELSE CASE r.g.st = "json" -> Tag("schema", ViewDiff(View(r.S), View(o.S)))
         [] r.g.st = "text" -> If(o.text = r.g.text, "text")
         [] r.g.st = "vars" -> VarsDiff(e, r, o) \cup If(o.wrap = (IF r.g.T.label = "golang" THEN "go" ELSE "plain"), "output")
         [] OTHER -> {}
Written(f, b) == \E i \in 1..Len(b.changed) : b.changed[i] = f
CliDiff(e, b) ==
  LET r == Invoke(e) IN
  If(r.rc = b.rc, "exit status")
  \cup If(Kind(r.stdout) = b.stdout, "stdout")
  \cup If(b.changed = (IF r.where = "file" THEN << r.path >> ELSE << >>), "files written")
  \cup (IF r.stdout = "summary" /\ b.stdout = "summary" THEN SummaryDiff(e, r, b.summary) ELSE {})
  \cup If(r.err = b.err.kind, "usage of target")
  \cup (IF r.err \in {"vars", "text"} /\ b.err.kind = r.err THEN ContentDiff(e, r, b.err) ELSE {})
  \cup (IF r.where = "stdout" /\ b.stdout = Kind(r.stdout) THEN ContentDiff(e, r, b.out) ELSE {})
  \cup (IF r.where = "file" /\ Written(r.path, b) THEN ContentDiff(e, r, b.file) ELSE {})
=============================================================================
