-------------------------------- MODULE MCGen -------------------------------
(***************************************************************************)
(* Every command line of up to MaxLen words after a base, over a small     *)
(* file system.  The laws: what is written is written only on success; the *)
(* schema is the selection the flags describe, read off the words; options *)
(* are a function; independent words commute.                              *)
(***************************************************************************)
EXTENDS Gen, Model
CONSTANTS MaxLen, Bases, Envs

Doc == "webrpc = v1\nname = doc\nversion = v1\nstruct Ra\n  - a: Rb\nstruct Rb\nstruct Rc\nenum En: int\n  - x\nerror 1 Bad \"m\"\n" \o
       "service Api\n  @a\n  - Get(a: Ra) => (e: En)\n  @a:x @b:\"x y\"\n  - Put(c: []Rc)\n  - Del()\n" \o
       "service Web\n  @b:\"x y\"\n  - Get() => (m: map<En,Rc>)\n  @a:y\n  - All()\n"
Raw == [bad |-> FALSE, webrpc |-> "v1", name |-> "n", version |-> "", basepath |-> "/b/", types |-> << >>, errors |-> << >>, services |-> << >>]
NoRaw == [bad |-> TRUE]
Fl(p, t, raw, tmpl, label) == [path |-> "D/" \o p, text |-> t, raw |-> raw, tmpl |-> tmpl, label |-> label]
AllFiles == << Fl("s.ridl", Doc, NoRaw, "", ""), Fl("n.json", "", Raw, "", ""), Fl("bad.ridl", "webrpc = v1\nstruct\n", NoRaw, "", ""),
               Fl("main/a.go.tmpl", "", NoRaw, "main", "here"), Fl("help/a.go.tmpl", "", NoRaw, "help", "helps"), Fl("gen-golang/a.go.tmpl", "", NoRaw, "exit", "ends"),
               Fl("w/", "", NoRaw, "", "") >>
FS == [ i \in 1..Len(AllFiles) |-> AllFiles[i] @@ [chars |-> Chars(AllFiles[i].text)] ]
Embedded == << << "golang", "v0.36.0" >>, << "kotlin", "v0.3.2" >> >>
Cache == << [target |-> "github.com/webrpc/gen-kept", fresh |-> TRUE, info |-> "github.com/webrpc/gen-kept@v1", tmpl |-> "main", label |-> "kept"],
            [target |-> "github.com/a/b@v2", fresh |-> FALSE, info |-> "github.com/a/b@v1", tmpl |-> "help", label |-> "old"] >>

Words == << "-service=Api", "-service=Web,Nope", "--service=", "-methodTreeShake", "-methodTreeShake=false", "-ignore=@a", "-ignore=@a:x,@b", "-match=@a", "-match=@b:x y", "-match=a",
            "-schemaVersion=v2", "-schemaVersion=", "-schemaVersion=$WEBRPC_SCHEMA_VERSION", "-out=o/p.txt", "-out=stdout", "-out=w", "-silent", "-silent=0", "-fmt=maybe", "-fmt=F",
            "-target=json", "--target=kotlin", "-target", "-target=./help", "-target=./none", "-target=golang", "-target=./gen-golang", "-target=kept", "-target=github.com/a/b@v2", "-schema=n.json",
            "-schema=bad.ridl", "-schema=", "-schema", "-name=v=1", "--name", "-h", "--help=x", "-version", "---out=x", "-", "foo", "-=x", "-refreshCache", "-src=package p\nvar  X=1", "-src=x" >>
Base(b) == CASE b = 1 -> << "-schema=s.ridl", "-target=./main" >> [] b = 2 -> << "-schema={dir}/s.ridl", "-target=golang", "-out=o.go" >> [] OTHER -> << >>
EnvOf(k) == IF k = 0 THEN [has |-> FALSE, val |-> ""] ELSE IF k = 1 THEN [has |-> TRUE, val |-> "v7"] ELSE [has |-> TRUE, val |-> ""]

VARIABLES base, env, ws
vars == << base, env, ws >>
Init == base \in Bases /\ env \in Envs /\ ws = << >>
Next == /\ Len(ws) < MaxLen
        /\ \E k \in 1..Len(Words) : ws' = Append(ws, k)
        /\ UNCHANGED << base, env >>
Spec == Init /\ [][Next]_vars

Real(a) == IF HasSub(a, "{dir}") THEN Before(a, "{dir}") \o "/D" \o AfterFirst(a, "{dir}") ELSE a
ArgsOf(w) == Map(Real, Base(base)) \o [ i \in 1..Len(w) |-> Words[w[i]] ]
Call(w) == [files |-> FS, cwd |-> "/D", args |-> ArgsOf(w), env |-> EnvOf(env), exe |-> "webrpc-gen", version |-> "v0", embedded |-> Embedded, cache |-> Cache]
R == Invoke(Call(ws))
S0 == OpenRaw(FS, "/D", "s.ridl")

SafeInv == LET r == R IN /\ r.rc \in {0, 1, 2, 3}
                         /\ r.where # "none" => r.rc = 0 \/ (r.rc = 1 /\ r.g.unformatted /\ r.where = "file")
                         /\ r.where = "file" => r.path # "" /\ ~IsFile(Call(ws), r.path)
\* the last word that gives a flag its value
ValueOf(n, none) == LET a == ArgsOf(ws) has == { i \in 1..Len(a) : ArgName(a[i]) = n } IN
                    IF has = {} THEN none ELSE LET i == CHOOSE i \in has : \A j \in has : j <= i IN IF HasSub(a[i], "=") THEN AfterFirst(a[i], "=") ELSE "bare"
Bare == \E i \in 1..Len(ws) : Words[ws[i]] \in {"-target", "-schema"}
SchemaInv == LET r == R IN (r.where # "none" /\ ~Bare /\ ValueOf("schema", "") \in {"s.ridl", "/D/s.ridl"}) =>
  LET svc == ValueOf("service", "") shake == ValueOf("methodTreeShake", "false") # "false" /\ svc # ""
      chosen == CASE svc = "" -> {"Api", "Web"} [] svc = "Api" -> {"Api"} [] OTHER -> {"Web"}
      has(m) == \* the annotations of the methods as the document has them
        CASE m = "Api.Get" -> { "a", "a:" } [] m = "Api.Put" -> {"a", "a:x", "b", "b:x y"} [] m = "Api.Del" -> {} [] m = "Web.Get" -> {"b", "b:x y"} [] OTHER -> {"a", "a:y"}
      ig == ValueOf("ignore", "") ma == ValueOf("match", "")
      out(m) == CASE ig = "" -> FALSE [] ig = "@a" -> "a" \in has(m) [] OTHER -> "a:x" \in has(m) \/ "b" \in has(m)
      in(m) == CASE ma = "" -> TRUE [] ma = "@a" -> "a" \in has(m) [] OTHER -> "b:x y" \in has(m)
      service(m) == SubSeq(m, 1, 3)
      want == { m \in {"Api.Get", "Api.Put", "Api.Del", "Web.Get", "Web.All"} : service(m) \in chosen /\ ~out(m) /\ in(m) }
      got == UNION { { r.S.services[i].name \o "." \o r.S.services[i].methods[j].name : j \in 1..Len(r.S.services[i].methods) } : i \in 1..Len(r.S.services) }
      types == { r.S.types[i].name : i \in 1..Len(r.S.types) }
      ver == ValueOf("schemaVersion", EnvVersion)
  IN /\ got = want /\ r.S.basepath = "/rpc/"
     /\ { r.S.services[i].name : i \in 1..Len(r.S.services) } = chosen
     /\ types = (IF ~shake \/ chosen = {"Api", "Web"} THEN {"Ra", "Rb", "Rc", "En"} ELSE IF chosen = {"Api"} THEN {"Ra", "Rb", "Rc", "En"} ELSE {"Rc", "En"})
     /\ r.S.version = (IF ver # EnvVersion THEN ver ELSE IF env = 1 THEN "v7" ELSE "v1")
     /\ r.S.errors = S0.errors /\ r.S.name = S0.name
OptsInv == LET o == Options(ArgsOf(ws)) IN
  /\ \A x, y \in o : x[1] = y[1] => x = y
  /\ \A x \in o : x[1] \notin StrFlags \cup BoolFlags
  /\ { x[1] : x \in o } = { OptName(ArgsOf(ws)[i]) : i \in { i \in 1..Len(ArgsOf(ws)) : ~IsFlag(ArgsOf(ws)[i]) } }
\* words of different names that take no other word for their value commute, unless showing the usage depends on what came before
Plain(a) == ~ArgBad(a) /\ a \notin {"-target", "-schema", "---out=x", "-fmt=maybe"} /\ ~IsHelp(a)
SwapInv == LET n == Len(ws) IN n >= 2 /\ ~Bare =>
  LET a == Words[ws[n - 1]] b == Words[ws[n]] IN
  (Plain(a) /\ Plain(b) /\ ArgName(a) # ArgName(b)) => Invoke(Call(ws)) = Invoke(Call(SubSeq(ws, 1, n - 2) \o << ws[n], ws[n - 1] >>))
Emitted == PrintT("CASE " \o ToJson([kind |-> "cli", files |-> AllFiles, args |-> Base(base) \o [ i \in 1..Len(ws) |-> Words[ws[i]] ], env |-> EnvOf(env), cache |-> Cache]))
=============================================================================
