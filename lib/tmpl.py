"""Templates run by the generator: programs made of the template functions, and
walks through the types of a schema with the type helpers."""
import json
import re

import core
import gen

# ------------------------------------------------------------------- walks

WALK = r'''
{{- define "line"}}@@ {{toJson .}}
{{end -}}
{{- define "node" -}}
{{template "line" array (get (dict (join (array .T) "") (join (array .T) "")) .T) (printf "%d%d%d%d%d%d%d%d" (ternary (isCoreType .T) 1 0) (ternary (isBasicType .T) 1 0) (ternary (isListType .T) 1 0) (ternary (isMapType .T) 1 0) (ternary (isStructType .T) 1 0) (ternary (isEnumType .T) 1 0) (ternary (isAliasType .T) 1 0) (ternary (isString .T) 1 0))}}
{{- if isListType .T}}{{template "node" dict "T" (listElemType .T)}}
{{- else if isMapType .T}}{{template "node" dict "T" (mapKeyType .T)}}{{template "node" dict "T" (mapValueType .T)}}{{end}}
{{- end -}}
{{- define "both"}}{{template "node" dict "T" .}}{{template "node" dict "T" .String}}{{end -}}
{{- define "main" -}}
{{- range .Types -}}
{{template "node" dict "T" .}}
{{- if isAliasType .}}{{template "both" .Type}}{{end -}}
{{- if isStructType .}}{{range .Fields}}{{template "both" .Type}}{{end}}{{end -}}
{{template "line" array .Name (printf "%d%d%d" (ternary (hasField . "Fields") 1 0) (ternary (hasField . "Methods") 1 0) (ternary (hasField . "Optional") 1 0))}}
{{template "line" array "fields" (printf "%d" (lastIndex .Fields))}}
{{- if isStructType .}}{{range .RequiredFields}}{{template "line" array "required" .Name}}{{end}}{{end -}}
{{- end -}}
{{- range .Services -}}
{{- range .Methods -}}
{{- range .Inputs}}{{template "both" .Type}}{{end}}{{range .Outputs}}{{template "both" .Type}}{{end -}}
{{template "line" array .Name (printf "%d%d%d%d" (ternary (hasField . "Inputs") 1 0) (ternary (hasField . "Succinct") 1 0) (ternary (hasField . "Fields") 1 0) (ternary (hasField . "Annotations") 1 0))}}
{{- template "line" array (printf "%d" (lastIndex .Inputs)) (printf "%d" (lastIndex .Outputs))}}
{{- template "line" array "errors" (join .Errors "|")}}
{{- if .Errors}}{{template "line" array (first .Errors) (last .Errors)}}{{end -}}
{{- end -}}
{{template "line" array .Name (printf "%d%d" (ternary (hasField . "Methods") 1 0) (ternary (hasField . "Fields") 1 0))}}
{{- end -}}
{{template "line" array "bigints" (ternary (SchemaUsesBigInts .WebRPCSchema) "1" "0")}}
{{- end -}}
'''


def walk(case):
    """the walk through the schema of a case"""
    c = dict(case, kind="walk", src=case["kind"], tmpl=WALK)
    c["ops"] = []
    return c


# ---------------------------------------------------------------- programs

def arg(a):
    k, s = a["k"], a["s"]
    if k == "v":
        return "$v%d" % a["n"]
    return {"s": json.dumps(s), "b": s, "i": s, "o": ".Opts", "f": ".Opts." + s}[k]


def program(prog, opts):
    t = '{{define "main"}}'
    for i, c in enumerate(prog):
        t += "{{$v%d := %s}}\n" % (i + 1, " ".join([c["fn"]] + [arg(a) for a in c["args"]]))
    for i in range(len(prog)):
        t += "@@ {{toJson $v%d}}\n" % (i + 1)
    t += "@@ {{toJson .Opts}}\n{{end}}"
    return dict(kind="tmpl", tmpl=t, prog=prog, opts=opts, src="")


def view(v):
    def r(t, s="", k=(), l=()):
        return dict(t=t, s=s, k=list(k), l=list(l))
    if v is None:
        return r("n")
    if isinstance(v, bool):
        return r("b", "true" if v else "false")
    if isinstance(v, int):
        return r("i", str(v))
    if isinstance(v, str):
        return r("s", v)
    if isinstance(v, list):
        return r("l", "", (), [view(x) for x in v])
    if isinstance(v, dict):
        return r("d", "", list(v), [view(x) for x in v.values()])
    return r("?", repr(v))


def printed(o):
    out = []
    for l in o.get("out", "").split("\n"):
        if l.startswith("@@ "):
            try:
                out.append(json.loads(l[3:]))
            except ValueError:
                out.append(3.5)
    return out


def event(case, o):
    if case["kind"] == "tmpl":
        return dict(kind="tmpl", prog=case["prog"], opts=case["opts"], obs=dict(st=o["st"], vals=[view(v) for v in printed(o)]))
    of = core.event(dict(case, kind=case["src"]), dict(o, pos=[], chain=[], s={}, ops=[]))
    lines = [x if isinstance(x, list) and len(x) == 2 and all(isinstance(y, str) for y in x) else ["?", json.dumps(x)] for x in printed(o)]
    return dict(kind="walk", of=of, obs=dict(st=o["st"], lines=lines))


# ------------------------------------------------------------- generation

WORDS = ["", "a", "b", "user", "User", "userName", "HTTPServer", "ID", "IDs", "IDsOf", "a,b", "a,b,,c", ",", "x-y_z", "true", "false", "éa", "Éa", "Ж", "жx", "日本", "aXa", "aa", "aaa",
         "api", "APIv2", "APIv2Service", "v1Api", "9Lives", "User Name", " a ", "a\tb", "\"q\"", "<b>&", "name", "Name", "NAME", "{{x}}", "map<string,int>", "[]User"]
CASEWORDS = ["userName", "UserName", "user_name", "user-name", "user name", "user", "User", "", "aBcDe", "oneTwoThree", "one__two", "_one_", "one2Two", "Été", "élan vital", "a.b.c", "one,two", "x9y"]
VERSIONS = ["v1", "v1.0", "v1.2.3", "v0.7.0", "0.7", "1", "v10.2", "v9.11", "v1.10", "v1.9", "v2", "v0.31.2", "v1.02", "v01.2", "v1.2-dev", "v1.2.x-dev", "", "v", "x", "v1.", "v1.x", "vv1", "v.1", "1.2.3.4", "v1.0.0-rc1"]
SEPS = [",", "", "a", "--", ", ", "x", "é", "aa"]
KEYS = ["a", "b", "name", "é", "", "k k", "help"]
OPTS = ["name", "pkg", "client", "help", "none", "zz"]


TYPEFNS = ["isCoreType", "isBasicType", "isListType", "isMapType", "mapKeyType", "mapValueType", "mapKeyType", "mapValueType", "listElemType", "listElemType",
           "isStructType", "isEnumType", "isAliasType"]
TEXPRS = ["map<string,int>", "map<string,map<int8,User>>", "map<string,[]User>", "[]User", "[][]int", "[]map<string,any>", "map<,>", "[]", "map<a>", "map<a,b", "map<a,b>c", "map",
          "a,b>", "map<a,b>,c", "map<a,b>,c>", " []a", "[ ]a", "Map<a,b>", "int", "Int", "uint64", "timestamp", "bigint", "error", "any", "null", "bool", "byte", "float", "float32",
          "struct", "enum", "alias", "map<string,bigint>", "", "User", "string ", ",", "<,>", "map<k,v,w>"]


def typefn(f, s):
    """followed only to choose what comes next; None where it fails"""
    k, c, v = s.partition(",")
    m = bool(c) and k.startswith("map<") and v.endswith(">")
    return {"isListType": s.startswith("[]"), "isMapType": m, "mapKeyType": k[4:] if m else None, "mapValueType": v[:-1] if m else None,
            "listElemType": s[2:] if s.startswith("[]") else None}.get(f, True)


class Prog:
    """a program written step by step; values are followed to choose fitting arguments"""

    def __init__(self, r):
        self.r = r
        self.opts = [[k, r.pick(["", "true", "false", "proto", "v1.2", "a,b"])] for k in r.some(OPTS[:4], 0, 3)]
        d = {}
        for k, v in self.opts:
            d[k] = v
        self.od = d
        self.birth = {id(d): 0}
        self.prog, self.vals, self.ok = [], [], True

    # ------ arguments
    def c(self, k, s):
        return dict(k=k, s=s, n=0), (s if k == "s" else s == "true" if k == "b" else int(s))

    def var(self, pred):
        ix = [i for i, v in enumerate(self.vals) if pred(v)]
        if not ix:
            return None
        i = self.r.pick(ix[-6:] if self.r.chance(.5) else ix)
        return dict(k="v", s="", n=i + 1), self.vals[i]

    def txt(self, pool=WORDS):
        r = self.r
        if r.chance(.3):
            v = self.var(lambda v: isinstance(v, str))
            if v:
                return v
        if r.chance(.05):
            f = [k for k in self.od if isinstance(self.od[k], str) and k in OPTS]
            if f:
                k = r.pick(f)
                return dict(k="f", s=k, n=0), self.od[k]
        return self.c("s", r.pick(pool))

    def any(self, nil=True):
        r = self.r
        x = r.randint(0, 19)
        if x < 7 and self.vals:
            return self.var(lambda v: True)
        if x < 13:
            return self.txt()
        if x < 15:
            return self.c("b", r.pick(["true", "false"]))
        if x < 17:
            return self.c("i", r.pick(["0", "1", "7", "42"]))
        if x < 18:
            return dict(k="o", s="", n=0), self.od
        if nil:
            k = r.pick(OPTS)
            return dict(k="f", s=k, n=0), self.od.get(k)
        return self.txt()

    def dic(self):
        r = self.r
        if r.chance(.3):
            return dict(k="o", s="", n=0), self.od
        return self.var(lambda v: isinstance(v, dict)) or (dict(k="o", s="", n=0), self.od)

    def arr(self):
        return self.var(lambda v: isinstance(v, tuple))

    def lst(self):
        return self.var(lambda v: isinstance(v, (tuple, list)))

    def reach(self, v, seen):
        if isinstance(v, dict):
            if id(v) in seen:
                return
            seen.add(id(v))
            for x in v.values():
                self.reach(x, seen)
        elif isinstance(v, (tuple, list)):
            for x in v:
                self.reach(x, seen)

    # ------ statements
    def add(self, fn, args, val):
        self.prog.append(dict(fn=fn, args=[a for a, _ in args]))
        self.vals.append(val)

    def step(self):
        r = self.r
        fn = r.pick(["dict", "get", "set", "set", "exists", "array", "array", "append", "append", "append", "first", "last", "lastIndex", "sort", "join", "split", "in", "default",
                     "coalesce", "ternary", "isString", "hasField", "type", "hasPrefix", "hasSuffix", "trimPrefix", "trimSuffix", "replaceAll", "minVersion", "case", "case", "text", "text"])
        if fn == "dict":
            ps = [(self.txt(KEYS), self.any()) for _ in range(r.randint(0, 3))]
            d = {}
            for (_, k), (_, v) in ps:
                d[k] = v
            self.birth[id(d)] = len(self.birth)
            self.keep = getattr(self, "keep", []) + [d]
            return self.add(fn, [x for p in ps for x in p], d)
        if fn in ("get", "exists"):
            d = self.dic()
            k = self.c("s", r.pick(list(d[1]))) if d[1] and r.chance(.85 if fn == "get" else .5) else self.txt(KEYS)
            if fn == "exists":
                return self.add(fn, [d, k], k[1] in d[1])
            if k[1] not in d[1]:
                self.ok = False
            return self.add(fn, [d, k], d[1].get(k[1]))
        if fn == "set":
            d, k, v = self.dic(), self.txt(KEYS), self.any()
            seen = set()
            self.reach(v[1], seen)
            if id(d[1]) in seen:
                v = self.txt()
            d[1][k[1]] = v[1]
            return self.add(fn, [d, k, v], "")
        if fn == "array":
            xs = [self.txt() if r.chance(.7) else self.any() for _ in range(r.randint(0, 4))]
            return self.add(fn, xs, tuple(v for _, v in xs))
        if fn == "append":
            a = self.arr()
            if not a:
                return self.step()
            xs = [self.txt() if r.chance(.8) else self.any() for _ in range(r.pick([0, 1, 1, 1, 2, 3]))]
            return self.add(fn, [a] + xs, a[1] + tuple(v for _, v in xs))
        if fn in ("first", "last", "lastIndex"):
            a = self.lst()
            if not a:
                return self.step()
            if fn == "lastIndex":
                return self.add(fn, [a], len(a[1]) - 1)
            if not a[1]:
                if r.chance(.8):
                    return self.step()
                self.ok = False
                return self.add(fn, [a], None)
            return self.add(fn, [a], a[1][0 if fn == "first" else -1])
        if fn in ("sort", "join"):
            a = self.arr() if fn == "sort" or r.chance(.6) else self.lst()
            if not a or any(isinstance(x, dict) for x in a[1]):
                return self.step()
            bad = not all(isinstance(x, str) for x in a[1]) and (fn == "join" or len(a[1]) > 1)
            if bad and r.chance(.9):
                return self.step()
            self.ok = self.ok and not bad
            if fn == "sort":
                return self.add(fn, [a], tuple(sorted(a[1])) if not bad else ())
            s = self.txt(SEPS)
            return self.add(fn, [a, s], s[1].join(a[1]) if not bad else "")
        if fn == "split":
            p, s = self.txt(SEPS), self.txt()
            return self.add(fn, [p, s], s[1].split(p[1]) if p[1] else list(s[1]))
        if fn == "in":
            xs = [self.any() for _ in range(r.randint(1, 4))]
            if r.chance(.4):
                xs.append(xs[0])
            return self.add(fn, xs, True)
        if fn in ("default", "coalesce"):
            xs = [self.any() for _ in range(2 if fn == "default" else r.randint(0, 4))]

            def full(v):
                return isinstance(v, (tuple, list, dict)) or bool(v)
            if fn == "default":
                return self.add(fn, xs, xs[0][1] if full(xs[0][1]) else xs[1][1])
            return self.add(fn, xs, next((v for _, v in xs if full(v)), ""))
        if fn == "ternary":
            b = self.c("b", r.pick(["true", "false"])) if r.chance(.5) else self.c("s", r.pick(["true", "false"])) if r.chance(.8) else self.var(lambda v: isinstance(v, bool) or v in ("true", "false"))
            if not b:
                return self.step()
            x, y = self.any(), self.any()
            return self.add(fn, [b, x, y], x[1] if b[1] in (True, "true") else y[1])
        if fn == "isString":
            x = self.any()
            return self.add(fn, [x], isinstance(x[1], str))
        if fn == "type":
            f = r.pick(TYPEFNS)
            x = self.txt(TEXPRS) if r.chance(.9) else self.c("b", "true")
            if f in ("isCoreType", "isBasicType") and x[1] in ("map", "[]"):
                return self.step()
            if f in ("isStructType", "isEnumType", "isAliasType"):
                return self.add(f, [x], False)
            v = typefn(f, x[1]) if isinstance(x[1], str) else None
            if v is None and r.chance(.8):
                return self.step()
            self.ok = self.ok and v is not None
            return self.add(f, [x], v)
        if fn == "hasField":
            x = self.any()
            return self.add(fn, [x, self.txt()], False)
        if fn in ("hasPrefix", "hasSuffix", "trimPrefix", "trimSuffix"):
            s = self.txt()
            n = r.randint(0, 3)
            p = self.c("s", s[1][:n] if fn.endswith("Prefix") else s[1][-n:] if n else "") if r.chance(.6) else self.txt()
            if fn.startswith("has"):
                return self.add(fn, [s, p], s[1].startswith(p[1]) if fn == "hasPrefix" else s[1].endswith(p[1]))
            return self.add(fn, [s, p], s[1].removeprefix(p[1]) if fn == "trimPrefix" else s[1].removesuffix(p[1]))
        if fn == "replaceAll":
            s, o, n = self.txt(), self.txt(SEPS), self.txt(SEPS)
            return self.add(fn, [s, o, n], s[1].replace(o[1], n[1]))
        if fn == "minVersion":
            good = [v for v in VERSIONS if re.match(r"v?\d+(\.\d+(\.|$)|$)", v)]
            a, b = [self.c("s", r.pick(good if r.chance(.96) else VERSIONS)) for _ in range(2)]
            if r.chance(.5):        # numbers of any length, near each other
                n = [r.randrange(10 ** r.randint(1, 6)) for _ in range(2)]
                m = [max(0, x + r.pick([-1, 0, 0, 1])) if r.chance(.6) else r.randrange(10 ** r.randint(1, 6)) for x in n]
                good = ["%s%d.%d%s" % (r.pick(["v", ""]), x[0], x[1], r.pick(["", "", ".0", ".7-rc.1"])) for x in (n, m)]
                a, b = [self.c("s", x) for x in good]
            self.ok = self.ok and a[1] in good and b[1] in good
            return self.add(fn, [a, b], True)
        if fn == "case":
            return self.add(r.pick(["camelCase", "pascalCase", "snakeCase", "kebabCase"]), [self.c("s", r.pick(CASEWORDS))], "?")
        s = self.txt()
        fns = ["toLower", "toUpper", "firstLetterToLower", "firstLetterToUpper"] + ["firstWordToLower"] * (2 * s[1].isascii())
        return self.add(r.pick(fns), [s], "?")

    def misuse(self):
        """a statement that must fail"""
        r = self.r
        if r.chance(.04):       # no parts at all
            self.add("split", [self.c("s", ""), self.c("s", "")], [])
            return self.add(r.pick(["first", "last"]), [(dict(k="v", s="", n=len(self.prog)), [])], None)
        notd = [self.c("s", "a"), self.c("i", "1"), self.c("b", "true")]
        d = (dict(k="o", s="", n=0), self.od)
        txts = ["toLower", "toUpper", "firstLetterToLower", "firstLetterToUpper", "firstWordToLower", "camelCase", "pascalCase", "snakeCase", "kebabCase"]
        nott = r.pick([self.c("i", "3"), self.c("b", "false"), d])
        a, b = self.c("s", "a"), self.c("s", "b")
        x = r.pick([
            ("dict", [a]), ("dict", [a, b, b]), ("dict", [nott, b]), ("get", [r.pick(notd), a]), ("get", [d, self.c("i", "1")]), ("get", [d, self.c("s", "surely not")]),
            ("set", [r.pick(notd), a, b]), ("set", [d, self.c("i", "1"), b]), ("exists", [r.pick(notd), a]), ("exists", [d, self.c("b", "true")]), ("append", [r.pick(notd), a]),
            ("first", [nott]), ("last", [nott]), ("first", [a]), ("last", [a]), ("lastIndex", [nott]), ("lastIndex", [a]), ("sort", [r.pick(notd)]), ("join", [nott, a]), ("join", [a, b]),
            ("split", [nott, a]), ("split", [a, nott]), ("ternary", [self.c("s", r.pick(["", "yes", "True", "1"])), a, b]), ("ternary", [self.c("i", "1"), a, b]), ("ternary", [d, a, b]),
            ("hasPrefix", [nott, a]), ("trimSuffix", [a, nott]), ("replaceAll", [a, nott, b]), ("minVersion", [nott, a]), ("minVersion", [self.c("s", "v1"), self.c("s", r.pick(["", "x", "v1.x", "v1.2-dev"]))]),
            ("minVersion", [self.c("s", r.pick(["", "x", "v1.", "latest"])), self.c("s", "v1")]), (r.pick(txts), [nott]), (r.pick(txts), [nott])])
        self.add(x[0], x[1], None)
        self.ok = False


def programs(r, n, steps=(1, 14), bad=.12):
    out = []
    for _ in range(n):
        p = Prog(r)
        for _ in range(r.randint(*steps)):
            if not p.ok:
                break
            p.step()
        if p.ok and r.chance(bad):
            p.misuse()
        out.append(program(p.prog, p.opts))
    return out
