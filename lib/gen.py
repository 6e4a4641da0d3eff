"""Seeded generators of schema inputs: abstract schemas, their RIDL and JSON
spellings, token-level mutations, and trees of importing files.  They know
nothing about what the right outcome is: that is the specification's job."""
import json
import random
import re

INTS = ["uint", "uint8", "uint16", "uint32", "uint64", "int", "int8", "int16", "int32", "int64"]
CORE = ["null", "any", "byte", "bool", "bigint", "float32", "float64", "string", "timestamp"] + INTS
TYPE_NAMES = ["User", "Page", "Kind", "Role", "Item", "A", "B", "C1", "Status", "Access", "Node", "Tree", "Map", "Any",
              "Request", "GetReq", "GetResp", "Bigint2", "X_y", "Éclair", "Enum", "Stream", "T9", "Zed", "Order",
              "StructA", "Errors", "Service1"]
FIELD_NAMES = ["id", "ID2", "name", "userId", "createdAt", "a", "b", "c_d", "list", "type", "map", "enum", "error", "x1",
               "Value", "stream", "struct", "import", "field", "owner", "tags", "next", "left", "right", "name2",
               "service", "version", "bigint"]
METHOD_NAMES = ["Ping", "Get", "List", "Create", "stream", "proxy", "Version", "GetUser", "errors", "Find2", "do_it", "Map",
                "Login", "version", "type", "Send"]
SERVICE_NAMES = ["API", "Admin", "ExampleService", "Auth", "api2", "Store", "Web/Rpc", "9lives"]
ERROR_NAMES = ["NotFound", "Denied", "Busy", "E1", "RateLimited", "Éspace", "Conflict", "Gone"]
ANN_KEYS = ["auth", "internal", "deprecated", "public", "role", "acl", "x_1", "Auth"]
META_KEYS = ["json", "go.tag.db", "go.field.name", "go.tag.json", "k", "ts.type", "json", "x.y.z", "required"]
WORDS = ["a", "user", "x1", "hello", "v1", "ADMIN", "S3", "ok", "not-found", "a.b", "x+y", "100", "e#", "it's", "a/b", "_z", "@home",
         "p@q", "ünï", "日本", "~", "[]", "1|2"]
EXOTIC = ["é", "ß", "ñ", "日", "本", "🎉", "¿", "¡", "\u00a0", "\u2028", "“", "#", "# ", "//", "'", "(", ")", "{", "}", "[", "]", "<",
          ">", ",", "|", ":", ";", "=", "=>", "!", "?", "@", "+", "-", "*", "&", "%", "$", "^", "`", "~", ".", "..", "\t", "\n",
          "\"", "  ", " ", "map", "stream", "struct", "errors", "import", "\u0000", "\u0007", "\u007f", "\u0001", "\ufeff", "ÿ",
          "\r", "<unknown>", "\\n", "\u0300", "𝒳", "ἀ", "Ω", "null", "0", "-1", "\u0130", "\u2029"]


class Rng(random.Random):
    def chance(self, p):
        return self.random() < p

    pick = random.Random.choice

    def some(self, seq, lo, hi):
        n = self.randint(lo, hi)
        return [self.choice(seq) for _ in range(n)]

    def uniq(self, seq, lo, hi):
        """distinct ignoring case"""
        pool = list(seq)
        self.shuffle(pool)
        n = self.randint(lo, hi)
        out, seen = [], set()
        for x in pool:
            if len(out) >= n:
                break
            if x.lower() not in seen:
                seen.add(x.lower())
                out.append(x)
        return out


def text(r, exotic=0.4, empty=0.0):
    if r.chance(empty):
        return ""
    n = r.randint(1, 6)
    parts = []
    for _ in range(n):
        parts.append(r.choice(EXOTIC) if r.chance(exotic) else r.choice(WORDS + ["the", "user", "was", "not", "found", " "]))
        if r.chance(0.4):
            parts.append(" ")
    return "".join(parts)


# ------------------------------------------------------------------ schemas

def type_expr(r, names, keys, depth=2, pc=0.55):
    x = r.random()
    if depth > 0 and x < 0.18:
        return "[]" + type_expr(r, names, keys, depth - 1, pc)
    if depth > 0 and x < 0.38:
        key = r.choice(keys) if keys and r.chance(0.4) else r.choice(INTS + ["string"] * 4)
        return "map<%s,%s>" % (key, type_expr(r, names, keys, depth - 1, pc))
    if names and not r.chance(pc):
        return r.choice(names)
    if r.chance(0.25):
        return "bigint"
    return r.choice(CORE)


def meta_val(r):
    return r.choice(["id", "-", "user_id", "omitempty", "ID", "x", "name,omitempty", "json:\"x\"", "1.5", "a=b", "CreatedAt"])


def metas(r, p=0.3, taken=None):
    out = []
    while r.chance(p) and len(out) < 4:
        k = r.choice(META_KEYS)
        v = meta_val(r)
        if k == "json":
            v = r.choice(["-", "j%d" % r.randint(0, 10 ** 6), "id_%d" % r.randint(0, 10 ** 6)])
        if r.chance(0.15) and k != "json":
            v = text(r)
        out.append([[k, True, v]])
    return out


def comments(r, p):
    if not r.chance(p):
        return []
    return [r.choice(["hello", "a comment", "see #5", "x", "TODO: y", "é ü", "! no", "the end # really", "\"quoted\" text", "a \\ b",
                      "@x -y +z", "struct Foo"]) for _ in range(r.randint(1, 3))]


def schema(r, types=(0, 6), services=(0, 2), pcom=0.0, exotic=0.1, errors=(0, 4), depth=2, pann=0.3, bigint=False, pc=0.55, psuc=0.2,
           prefix="", pool=None, ascii=False, fields=(0, 4), methods=(1, 4), args=(0, 3), extern=(), extern_errors=()):
    """an abstract schema that is well-formed most of the time"""
    keep = lambda seq: [n for n in seq if n.isascii() or not ascii]
    tn = [prefix + n for n in r.uniq(keep(pool or TYPE_NAMES), *types)]
    kinds = {}
    for n in tn:
        kinds[n] = r.choices(["struct", "enum", "alias"], [6, 2, 2])[0]
    order = {"alias": 0, "enum": 1, "struct": 2}
    tn.sort(key=lambda n: order[kinds[n]])
    enums = [n for n in tn if kinds[n] == "enum"]
    ts, keys = [], list(enums)
    alias_of_enum = []
    for n in tn:
        if kinds[n] == "alias" and enums and r.chance(0.4):
            alias_of_enum.append(n)
    keys += alias_of_enum
    local = tn
    tn = tn + [n for n, _ in extern] * 2
    keys += [n for n, k in extern if k == "enum"]
    for n in local:
        t = dict(kind=kinds[n], name=n, has=False, type="", fields=[], meta=[], com=comments(r, pcom))
        if t["kind"] == "alias":
            t["has"] = True
            t["type"] = r.choice(enums) if n in alias_of_enum else type_expr(r, tn, keys, depth, pc)
            t["meta"] = metas(r)
        elif t["kind"] == "enum":
            t["com"] = []
            t["has"] = True
            t["type"] = r.choice(INTS + ["string"] * 4)
            for i, f in enumerate(r.uniq(FIELD_NAMES, 0, 5)):
                v = "" if r.chance(0.5) else (str(r.randint(0, 300)) if t["type"] != "string" or r.chance(0.3) else text(r, exotic))
                t["fields"].append(dict(name=f, has=False, type="", opt=False, val=v, meta=[], com=comments(r, pcom)))
        else:
            for f in r.uniq(FIELD_NAMES, *fields):
                t["fields"].append(dict(name=f, has=True, type=type_expr(r, tn, keys, depth, pc), opt=r.chance(0.3), val="",
                                        meta=metas(r), com=comments(r, pcom)))
        ts.append(t)
    es = []
    used = set()
    for n in r.uniq(keep(ERROR_NAMES), *errors):
        c = r.choice([r.randint(1, 9), r.randint(1, 999), r.randint(1, 2147483647)])
        if c in used:
            continue
        used.add(c)
        es.append(dict(code=str(c), name=prefix + n, msg=text(r, exotic) if r.chance(0.6) else r.choice(["denied", "busy"]),
                       http=str(r.choice([400, 400, 401, 404, 429, 500, 599, r.randint(400, 599)]))))
    svs = []
    structs = [n for n in local if kinds[n] == "struct"] + [n for n, k in extern if k == "struct"]
    errnames = [e["name"] for e in es] + list(extern_errors)
    for sn in r.uniq(SERVICE_NAMES, *services):
        ms = []
        for mn in r.uniq([m for m in METHOD_NAMES], *methods):
            m = dict(name=mn, ann=[], com=comments(r, pcom), suc=False, sin=False, sout=False, ins=[], outs=[], errs=[])
            m["sin"] = r.chance(0.15)
            if mn in ("stream", "proxy"):
                m["sin"] = True   # the name must follow the mark
            seen = set()
            while r.chance(pann):
                k = r.choice(ANN_KEYS)
                if k in seen:
                    break
                seen.add(k)
                m["ann"].append([k, k, r.choice(["", "", "yes", "ADMIN", "yes", "ADMIN ", " yes", " ", text(r, exotic)])])
            if structs and r.chance(psuc):
                m["suc"] = True
                for side in ("ins", "outs"):
                    x = r.choice(structs)
                    m[side] = [dict(name=x[0].lower() + x[1:], has=True, type=x, opt=False)]
            else:
                for side in ("ins", "outs"):
                    for a in r.uniq(FIELD_NAMES, *args):
                        m[side].append(dict(name=a, has=True, type=type_expr(r, tn, keys, depth, pc), opt=r.chance(0.25)))
            m["sout"] = r.chance(0.2)
            if errnames and r.chance(0.4):
                m["errs"] = r.sample(errnames, r.randint(1, min(3, len(errnames))))
            ms.append(m)
        svs.append(dict(name=prefix + sn, com=comments(r, pcom), methods=ms))
    return dict(webrpc="v1", name=r.choice(["", "test", "My/App", "x"]), version=r.choice(["v1.0.0", "v0.1.0", "1"]) if svs or r.chance(0.5) else "",
                basepath=r.choice(["", "", "", "/", "rpc", "/rpc/", "/a/b", "x/", "/v1%20/"]), types=ts, errors=es, services=svs)


def chain(r, s, n):
    """adds n types that lead from one to the next, directly or through lists, maps and aliases, to a bigint, another type or back"""
    names = ["Link%d" % i for i in range(n)]
    here = [t["name"] for t in s["types"]]
    ts = []
    plain = r.chance(.6)
    for i, a in enumerate(names):
        to = names[i + 1] if i + 1 < n else r.choice(["bigint"] * 4 + ["[]map<string,bigint>", "int", r.choice(names)] + here)
        wrap = "%s" if plain else r.choice(["%s", "%s", "[]%s", "map<string,%s>", "[]map<int,%s>", "map<string,[][]%s>"])
        if r.chance(.05 if plain else .12) and i and to != a and "%s" % to not in names[:i + 1]:
            ts.append(dict(kind="alias", name=a, has=True, type=wrap % to, fields=[], meta=[], com=[]))
            continue
        fs = [dict(name="next", has=True, type=wrap % to, opt=r.chance(.2), val="", meta=metas(r, .15), com=[])]
        while r.chance(.4) and len(fs) < 4:
            fs.insert(r.randrange(len(fs) + 1), dict(name="f%d" % len(fs), has=True, opt=False, val="", meta=[], com=[],
                                                     type=r.choice(["int", "string", r.choice(names), "[]" + r.choice(names), "map<string,%s>" % r.choice(names)])))
        ts.append(dict(kind="struct", name=a, has=False, type="", fields=fs, meta=[], com=[]))
    # an alias comes back to itself only through a struct
    kind = {t["name"]: t for t in ts}
    for t in ts:
        if t["kind"] == "struct":
            continue
        seen, x = {t["name"]}, t
        while x and x["kind"] == "alias":
            nx = [k for k in sorted(kind, key=len, reverse=True) if k in x["type"]][:1]
            x = kind.get(nx[0]) if nx else None
            if x and x["name"] in seen:
                t["type"] = "int"
                break
            if x:
                seen.add(x["name"])
    if r.chance(.7):
        r.shuffle(ts)
    s["types"] = s["types"] + ts if r.chance(.5) else ts + s["types"]
    for v in s["services"]:
        for m in v["methods"]:
            if not m["suc"] and r.chance(.4):
                m[r.choice(["ins", "outs"])].append(dict(name="link", has=True, type=r.choice(["%s", "[]%s", "map<string,%s>"]) % r.choice([names[0], names[0], r.choice(names)]), opt=False))


def badexpr(r, names):
    """a type expression with one mistake somewhere"""
    key = lambda: r.choice(INTS + ["string"] * 3) if r.chance(.7) else r.choice(CORE + names)

    def make(d):
        x = r.random()
        if d and x < .3:
            return "[]" + make(d - 1)
        if d and x < .85:
            return "map<%s,%s>" % (key(), make(d - 1))
        return r.choice(CORE + names)
    e = make(r.randint(1, 5))
    k = r.random()
    if k < .35:      # another name
        import re
        ws = list(re.finditer(r"[A-Za-z0-9_]+", e))
        w = r.choice(ws)
        return e[:w.start()] + r.choice(CORE + names + ["Unknown", "map", "List", w.group().upper(), w.group().capitalize(), ""]) + e[w.end():]
    if k < .6:       # another separator
        at = [i for i, c in enumerate(e) if c in ",<>[]"]
        if at:
            i = r.choice(at)
            return e[:i] + r.choice([" |", "|", " | ", ",,", "", "<", ">", ":", " ,", "[]", ".", ", "]) + e[i + 1:]
    if k < .85:
        i = r.randrange(len(e) + 1)
        return e[:i] + r.choice(["<", ">", ",", "[", "]", "[]", " ", "?", "|", "(", ")", "map<string,", "x"]) + e[i:]
    return e


# each breaks (or nearly breaks) one rule
def fill(r, s, p=.99):
    """RIDL takes the name of an enum's member for its value, JSON does not"""
    for t in s["types"]:
        for f in t["fields"] if t["kind"] == "enum" else []:
            f["val"] = f["val"] or (f["name"] if r.chance(p) else "")


def break_schema(r, s):
    T, E, V = s["types"], s["errors"], s["services"]
    structs = [t for t in T if t["kind"] == "struct"]
    enums = [t for t in T if t["kind"] == "enum"]
    fields = [(t, f) for t in T for f in t["fields"]]
    meths = [(v, m) for v in V for m in v["methods"]]
    args = [(m, a) for _, m in meths for a in m["ins"] + m["outs"] if not m["suc"]]
    sites = [f for t, f in fields if t["kind"] == "struct"] + [a for _, a in args] + [t for t in T if t["kind"] == "alias"]

    def recase(n):
        return r.choice([n.lower(), n.upper(), n.swapcase(), n[0] + n[1:].swapcase()])
    ops = []
    add = ops.append
    add(lambda: s.update(webrpc=r.choice(["v2", "", "V1", "v1.0", "v10", "1"])))
    add(lambda: s.update(version=""))
    add(lambda: s.update(basepath=r.choice(["a b", "/x?y", "/x#y", "http://x", "a://b", "%", "/%zz", "/%4", "x%20", "//x", "//", ":a", "a:b",
                                            "/\u0001", "/\u007f", "/é", "é", "\tx", "/[x]", "*", "/a%", "/ok%2F/", "/a\\b", "//host/x"])))
    if T:
        add(lambda: r.choice(T).update(name=r.choice(["lower", "éa", "9x", "_X", "Ünder", "X-y", "X", "ßx", "Ω1", "string", "Ä/b"])))
        if len(T) > 1:
            def duptype():
                a, b = r.sample(T, 2)
                b["name"] = r.choice([a["name"], recase(a["name"])])
            add(duptype)
    if fields:
        def dupfield():
            t = r.choice([t for t in T if t["fields"]])
            f = dict(r.choice(t["fields"]))
            f["name"] = r.choice([f["name"], recase(f["name"]), f["name"] + "_"])
            f["meta"] = []
            t["fields"].insert(r.randint(0, len(t["fields"])), f)
        add(dupfield)
        add(lambda: r.choice(fields)[1].update(name=r.choice(["_a", "9a", "é", "a-b", "a.b", "a b", "ID", "z", "a" * 40, "x'"])))
    if structs:
        def dupjson():
            t = r.choice(structs)
            if len(t["fields"]) < 2:
                return
            a, b = r.sample(t["fields"], 2)
            v = r.choice([b["name"], recase(b["name"]), "same", "-", "9", "a-b", "é", "a_1", ""])
            a["meta"] = a["meta"] + [[["json", True, v]]]
            if r.chance(0.4):
                b["meta"] = b["meta"] + [[["json", True, r.choice([v, recase(v or "x"), "other"])]]]
        add(dupjson)
        add(dupjson)
    if enums:
        add(lambda: r.choice(enums).update(type=r.choice(["bool", "float32", "Foo", "[]int", "any", "bigint", "string", "uint8", "byte",
                                                           "map<string,int>", "String", "timestamp"] + [t["name"] for t in T])))
        add(lambda: [f.update(val="") for f in r.choice(enums)["fields"][:1]])
    if sites:
        def badtype():
            x = r.choice(sites)
            e = x["type"]
            names = [t["name"] for t in T]
            if r.chance(.4):
                x["type"] = badexpr(r, names)
                return
            x["type"] = r.choice([
                "Unknown", "[]Unknown", "map<string,Unknown>", "map<Unknown,int>", "[]", "[][]", "map<string,>", "map<,int>", "map<string>",
                "map<bool,int>", "map<float32,string>", "map<any,any>", "map<bigint,int>", "map", "map<>", "map<[]string,int>", "map<byte,int>",
                "map<timestamp,int>", "map<null,int>", "map<map<string,int>,int>", "String", "INT", "[]Map", "Map<string,int>", "map<string,[]>",
                "map<string,map<string,>>", "", "map<string,int,int>", "map<int8|int>", "[]map<string,bool>", "Int", "map<String,int>", "int int",
                "[", "]", "map<string,int", "map<string,map<uint8,[]any>>", "[][][]byte", "map<map,int>", "map<string,map>"]
                + ["".join(r.some(["map<", "map", "<", ">", ",", "[]", "string", "int", "bool", " ", "X"] + names, 1, 6)) for _ in range(9)]
                + ["%s" % recase(n) for n in names] + ["map<%s,int>" % n for n in names] + ["map<%s,int>" % recase(n) for n in names]
                + ["[]" + n for n in names] + ["map<%s,%s>" % (r.choice(names), r.choice(names)) if names else "any"] * 3)
            _ = e
        for _ in range(6):
            add(badtype)
    if E:
        add(lambda: r.choice(E).update(code=r.choice(["0", "00", "-1", "2147483647", "2147483648", "99999999999", "01", "1"])))
        add(lambda: r.choice(E).update(name=r.choice(["lower", "WebrpcX", "webrpcY", "Webrpc", "WEBRPC1", "Web", "éX", "Êx", "_X", "9X", "X"])))
        add(lambda: r.choice(E).update(http=r.choice(["399", "400", "599", "600", "0", "99", "1000", "4000", "200", "500", "-400", "4294967696"])))
        add(lambda: r.choice(E).update(msg=r.choice(["", " ", "x"])))
        if len(E) > 1:
            def duperr():
                a, b = r.sample(E, 2)
                if r.chance(0.5):
                    b["name"] = r.choice([a["name"], recase(a["name"])])
                else:
                    b["code"] = a["code"]
            add(duperr)
    if V:
        add(lambda: r.choice(V).update(methods=[]))
        if len(V) > 1:
            def dupsvc():
                a, b = r.sample(V, 2)
                b["name"] = r.choice([a["name"], recase(a["name"])])
            add(dupsvc)
    if meths:
        def dupmeth():
            v, m = r.choice(meths)
            m2 = dict(m)
            m2["name"] = r.choice([m["name"], recase(m["name"]), m["name"] + "2"])
            v["methods"].insert(r.randint(0, len(v["methods"])), m2)
        add(dupmeth)
        add(lambda: r.choice(meths)[1].update(errs=[r.choice(["Nope", "NotFound", "notfound"] + [recase(e["name"]) for e in E] + [e["name"] for e in E])]))

        def suc():
            _, m = r.choice(meths)
            m["suc"] = True
            side = r.choice(["ins", "outs"])
            names = [t["name"] for t in T] + ["Unknown", "string", "any"]
            for sd in ("ins", "outs"):
                x = r.choice(names)
                m[sd] = [dict(name=(x[0].lower() + x[1:]), has=True, type=x, opt=False)]
            if r.chance(0.3):
                m[side] = []
            elif r.chance(0.3):
                m[side] = m[side] + [dict(name="z", has=True, type="int", opt=False)]
        add(suc)
        add(suc)
    r.choice(ops)()
    return s


def clone(s):
    import copy
    return copy.deepcopy(s)


def tweak(r, s):
    """change one attribute of a schema"""
    T, E, V = s["types"], s["errors"], s["services"]
    F = [f for t in T for f in t["fields"]]
    SF = [f for t in T if t["kind"] == "struct" for f in t["fields"]]
    M = [m for v in V for m in v["methods"]]
    A = [a for m in M for a in m["ins"] + m["outs"]]
    ops = []

    def add(cond, f):
        if cond:
            ops.append(f)

    def swap(l):
        i = r.randrange(len(l) - 1)
        l[i], l[i + 1] = l[i + 1], l[i]

    def flip(d, k):
        d[k] = not d[k]

    def com(d):
        k = r.randint(0, 3)
        if k == 0 and d["com"]:
            d["com"].pop(r.randrange(len(d["com"])))
        elif k == 1 and len(d["com"]) > 1:
            d["com"] = [d["com"][0] + "\n" + d["com"][1]] + d["com"][2:]
        else:
            d["com"] = d["com"] + [r.choice(["x", "", " ", "y"])]

    def met(d):
        k = r.randint(0, 3)
        if k == 0 and d["meta"]:
            d["meta"].pop()
        elif k == 1 and d["meta"] and d["meta"][-1]:
            e = d["meta"][-1][-1]
            d["meta"][-1] = d["meta"][-1][:-1] + [[e[0], True, e[2] + "x"]]
        elif k == 2 and d["meta"]:
            d["meta"] = d["meta"] + [[["k2", False, r.choice(["1", "true", "null", "[]", "1.5"])]]]
        else:
            d["meta"] = d["meta"] + [[["k3", True, r.choice(["1", "true", "null", ""])]]]
    def nudge(t):
        i = r.randrange(len(t) + 1)
        if t and r.chance(.2):
            return t[:i] + t[i + 1:]
        return t[:i] + r.choice(["\u2028", "\u2029", "<", ">", "&", "\\", " ", "\u0000", "é", "e\u0301", "\n", "\t", "0", "\"", "\u00a0", "\ufeff", "\x7f", "\U0001f389"]) + t[i:]

    def nudgemeta(d):
        e = d["meta"][-1][-1]
        d["meta"][-1] = d["meta"][-1][:-1] + [[e[0], True, nudge(e[2])]]
    add(E, lambda: (lambda e: e.update(msg=nudge(e["msg"]) or "m"))(r.choice(E)))
    for l in (T, V, M):
        cs = [x for x in l if x["com"]]
        add(cs, lambda cs=cs: (lambda d, i: d["com"].__setitem__(i, nudge(d["com"][i])))(r.choice(cs), 0))
    ms = [x for x in SF if x["meta"] and x["meta"][-1] and x["meta"][-1][-1][1]]
    add(ms, lambda: nudgemeta(r.choice(ms)))
    ns = [m for m in M if m["ann"]]
    add(ns, lambda: (lambda a: a.__setitem__(2, nudge(a[2])))(r.choice(r.choice(ns)["ann"])))
    add(True, lambda: s.update(name=nudge(s["name"])))
    add(True, lambda: s.update(name=s["name"] + "x"))
    add(True, lambda: s.update(version=s["version"] + ".1"))
    add(True, lambda: s.update(basepath=r.choice(["", "/", "/x", "/x/", "x"])))
    add(len(T) > 1, lambda: swap(T))
    add(len(E) > 1, lambda: swap(E))
    add(len(V) > 1, lambda: swap(V))
    add(T, lambda: T.pop())
    add(E, lambda: r.choice(E).update(msg=r.choice(["x", "x ", "<b>&", "\u2028"])))
    add(E, lambda: r.choice(E).update(http=r.choice(["400", "404", "500"])))
    add(E, lambda: r.choice(E).update(code=str(r.randint(1, 99))))
    add(E, lambda: r.choice(E).update(name=r.choice(["Zed", "Zed2"])))
    for k in range(2):
        add(T, lambda: com(r.choice(T)))
        add(F, lambda: com(r.choice(F)))
        add(M, lambda: com(r.choice(M)))
        add(V, lambda: com(r.choice(V)))
        add(T, lambda: met(r.choice(T)))
        add(F, lambda: met(r.choice(F)))
        add(SF, lambda: flip(r.choice(SF), "opt"))
        add(A, lambda: flip(r.choice(A), "opt"))
        add(M, lambda: flip(r.choice(M), r.choice(["sin", "sout"])))
    add(F, lambda: r.choice(F).update(name=r.choice(["zz", "zy"])))
    add(A, lambda: r.choice(A).update(name=r.choice(["zz", "zy"])))
    add(A, lambda: r.choice(A).update(type=r.choice(["int", "[]int", "map<string,int>", "any"])))
    add(SF, lambda: r.choice(SF).update(type=r.choice(["int", "[]int", "map<string,int>", "any"])))
    add([t for t in T if t["kind"] == "enum"], lambda: [f.update(val=r.choice(["7", "x"])) for t in T if t["kind"] == "enum" for f in t["fields"][:1]])

    def ann(m):
        if m["ann"] and r.chance(.5):
            m["ann"].pop()
        else:
            m["ann"] = [a for a in m["ann"] if a[0] != "zz"] + [["zz", r.choice(["zz", "zy"]), r.choice(["", "1"])]]
    add(M, lambda: ann(r.choice(M)))
    add(M and E, lambda: r.choice(M).update(errs=[r.choice(E)["name"]]))
    add(M, lambda: r.choice(M).update(errs=[]))
    add(M, lambda: r.choice(M).update(name="Zz"))
    add(V, lambda: r.choice(V).update(name="Zz"))

    def move():
        a, b = r.choice(M), r.choice(M)
        if a["outs"] and not a["suc"] and not b["suc"]:
            b["ins"].append(a["outs"].pop())
    add(M, move)
    for _ in range(r.choice([1, 1, 2])):
        try:
            r.choice(ops)()
        except (IndexError, ValueError):
            pass


# ------------------------------------------------------------------ RIDL text

class Writer:
    def __init__(self, r, layout=0.3, pcom=0.1, quote=0.5, order=True, crlf=0.03, trailing=True):
        self.r, self.layout, self.pcom, self.quote, self.order, self.trailing = r, layout, pcom, quote, order, trailing
        self.nl = "\r\n" if r.chance(crlf) else "\n"
        self.out = []

    def o(self, *s):                     # optional blank
        r = self.r
        if r.chance(self.layout):
            return r.choice(["", " ", "  ", "\t", " \t "])
        return s[0] if s else ""

    def b(self):                         # needed blank
        r = self.r
        return r.choice(["  ", "\t", "   ", " \t"]) if r.chance(self.layout) else " "

    def eol(self, p=None):
        r = self.r
        s = ""
        if r.chance(self.layout / 3):
            s += r.choice([" ", "\t", "  "])
        if self.trailing and r.chance(self.pcom if p is None else p):
            s += r.choice([" # ", " #", "  ## ", "\t#\t", "# " if r.chance(0.1) else " # "]) + self.ctext()
        s += self.nl
        while r.chance(self.layout / 4):
            s += r.choice(["", " ", "\t", "  "]) + self.nl
        return s

    def ctext(self):
        r = self.r
        return r.choice(["note", "a b c", "", "see #5", "x  y", "!skip", "! spaced", "# hash", "\"q\"", "é", "a \\n b", "- dash", "@ann", "end #",
                         "#", "##", "tab\there", "\"open", "# # x", "日本 語", "100%", "@a:b", "=>", "## x", "word#word"])

    def comment_lines(self, lines):
        r = self.r
        s = ""
        for c in lines:
            s += self.o("") + r.choice(["# ", "#", "## "] if r.chance(0.3) else ["# "]) + c + self.nl
        return s

    def extra_comments(self):
        """comment lines (with blank lines) that may or may not document what follows"""
        r = self.r
        s = ""
        while r.chance(self.pcom):
            s += self.o("") + r.choice(["#", "# ", "##", "#! ", "#!"]) + self.ctext() + self.nl
            if r.chance(0.3):
                s += self.nl
        return s

    def lit(self, v, bare=r"^[A-Za-z0-9_][^\x00\s\[\]()<>{}=:¿?¡!,\"\\]*$"):
        r = self.r
        if v and re.match(bare, v) and r.chance(1 - self.quote):
            return v
        return '"' + v.replace('"', '\\"').replace("\n", "\\n").replace("\t", r.choice(["\\t", "\t"])) + '"'

    def texpr(self, e):
        if not self.r.chance(self.layout):
            return e
        # blanks are allowed inside map< >
        out, depth = "", 0
        for ch in e:
            out += ch
            if ch == "<":
                depth += 1
            if ch == ">":
                depth -= 1
            if depth > 0 and ch in "<,":
                out += self.r.choice(["", " ", "  "])
        return out

    def args(self, as_, suc):
        r = self.r
        if suc and len(as_) == 1:
            return "(" + self.o("") + as_[0]["type"] + ")"
        parts = []
        for a in as_:
            parts.append(a["name"] + ("?" if a["opt"] else "") + ":" + self.o(" ") + self.texpr(a["type"]))
        sep = "," + self.o(" ")
        return "(" + self.o("") + sep.join(parts) + self.o("") + ")"

    def meta(self, groups):
        s = ""
        for g in groups:
            for k, _, v in g:
                s += self.extra_comments() if self.r.chance(0.2) else ""
                s += self.o("    ") + "+" + self.o(" ") + k + self.o(" ") + "=" + self.o(" ")
                s += self.lit(v, r"^[A-Za-z0-9_][A-Za-z0-9_.,=<>:/\-]*$") + self.eol()
        return s

    def header(self, k, v):
        return self.extra_comments() + k + self.o(" ") + "=" + self.o(" ") + self.lit(v, r"^[A-Za-z0-9_][A-Za-z0-9_.\-/]*$") + self.eol()

    def error(self, e):
        r = self.r
        s = self.extra_comments() + "error" + self.b() + e["code"] + self.b() + e["name"] + self.b()
        s += self.lit(e["msg"], r"^[A-Za-z0-9_]+$")
        if e["http"] != "400" or r.chance(0.3):
            s += self.b() + "HTTP" + self.b() + e["http"]
        return s + self.eol()

    def type(self, t):
        s = self.comment_lines(t["com"]) if t["com"] else self.extra_comments()
        if t["kind"] == "alias":
            return s + "type" + self.b() + t["name"] + ":" + self.o(" ") + self.texpr(t["type"]) + self.eol() + self.meta(t["meta"])
        if t["kind"] == "enum":
            s += "enum" + self.b() + t["name"] + ":" + self.o(" ") + t["type"] + self.eol()
            for f in t["fields"]:
                s += self.comment_lines(f["com"]) if f["com"] else self.extra_comments()
                s += self.o("  ") + "-" + self.o(" ") + f["name"]
                if f["val"] != "":
                    s += self.o(" ") + "=" + self.o(" ") + self.lit(f["val"], r"^[A-Za-z0-9_][A-Za-z0-9_.\-]*$")
                s += self.eol()
            return s
        s += "struct" + self.b() + t["name"] + self.eol()
        for f in t["fields"]:
            s += self.comment_lines(f["com"]) if f["com"] else self.extra_comments()
            s += self.o("  ") + "-" + self.o(" ") + f["name"] + ("?" if f["opt"] else "") + ":" + self.o(" ") + self.texpr(f["type"]) + self.eol()
            s += self.meta(f["meta"])
        return s

    def service(self, v):
        r = self.r
        s = self.comment_lines(v["com"]) if v["com"] else self.extra_comments()
        s += "service" + self.b() + v["name"] + self.eol()
        for m in v["methods"]:
            s += self.comment_lines(m["com"]) if m["com"] else self.extra_comments()
            for i, (k, _, val) in enumerate(m["ann"]):
                s += self.o("  ") + "@" + k
                if val:
                    s += ":" + self.lit(val, r"^[A-Za-z0-9_]+$")
                if i + 1 < len(m["ann"]) and r.chance(0.4):
                    s += self.o(" ")
                else:
                    s += self.eol()
                    if r.chance(self.pcom):
                        s += self.extra_comments()
            s += self.o("  ") + "-" + self.o(" ")
            if m["sin"]:
                s += "stream" + self.b()
            s += m["name"] + self.args(m["ins"], m["suc"])
            if m["outs"] or m["sout"] or m["suc"] or r.chance(0.1):
                s += self.o(" ") + "=>" + self.o(" ")
                if m["sout"]:
                    s += "stream" + self.o(" ")
                s += self.args(m["outs"], m["suc"])
            if m["errs"]:
                s += self.o(" ") + "errors" + self.b() + ((" " if not r.chance(0.03) else "") + self.o("") + "|" + self.o(" ")).join(m["errs"])
            s += self.eol()
        return s

    def doc(self, s, imports=()):
        r = self.r
        heads, parts = [], []
        for k in ("webrpc", "name", "version", "basepath"):
            if s[k] != "":
                heads.append(self.header(k, s[k]))
        for i in imports:
            parts.append(self.imp(i))
        if self.order and r.chance(0.3):
            r.shuffle(heads)
        body = [self.error(e) for e in s["errors"]] + [self.type(t) for t in s["types"]] + [self.service(v) for v in s["services"]]
        if self.order and r.chance(0.5):
            # keep the order inside each kind, interleave the kinds
            r.shuffle(body)
        if self.order and r.chance(0.1):
            allp = heads + parts + body
            r.shuffle(allp)
        else:
            allp = heads + parts + body
        sep = lambda: self.nl if r.chance(0.6) else ""
        out = "".join(p + sep() for p in allp)
        out += self.extra_comments()
        if r.chance(0.15):
            out = out.rstrip("\r\n")
        return out

    def imp(self, i):
        """i = list of (path, members)"""
        r = self.r
        one = len(i) == 1
        if one and (i[0][1] or r.chance(0.4)):
            path, members = i[0]
            s = "import" + self.b() + self.lit(path, r"^[A-Za-z0-9_][A-Za-z0-9_./\-]*$|^\.{1,2}/[A-Za-z0-9_./\-]*$") + self.eol()
            for m in members:
                s += self.o("  ") + "-" + self.o(" ") + self.lit(m, r"^[A-Za-z0-9_]+$") + self.eol()
            return s
        s = "import" + self.eol()
        for path, _ in i:
            s += self.extra_comments()
            s += self.o("  ") + "-" + self.o(" ") + self.lit(path, r"^[A-Za-z0-9_][A-Za-z0-9_./\-]*$|^\.{1,2}/[A-Za-z0-9_./\-]*$") + self.eol()
        return s


VOCAB = ["webrpc", "name", "version", "basepath", "import", "error", "enum", "type", "struct", "service", "stream", "proxy", "errors", "HTTP",
         "map", "User", "x", "1", "404", "string", "int", "-", "+", "@", "#", ":", "?", "=", "=>", "(", ")", "[", "]", "<", ">", ",", "|", ".", "/",
         "\\", "\"", "\n", " ", "\t", "\r\n", "!", "{", "}", "é", "¿", "¡", "\u0000", "# c\n", "\"s\"", "\\n", "\\\"", "()", "- a", "@a", "@a:b", "+ k = v",
         "=> ()", "errors E1", "\n\n", "\n- ", "\n@a\n", "\n+ a = b", "&", "'", "_", "0", "\u00a0"]
LINES = ["webrpc = v1", "name = other", "version = v9", "basepath = /b", "name = \"q\"", "message M", "message M\n- a: int", "title = x",
         "errors", "service = x", "import", "struct", "proxy = 1", "name", "version", "enum E", "type T", "error 7", "error 7 Seven", "service S\n- m",
         "@a", "+ a = b", "- a", "- a: int", "- a()", "# c"]
TOKRE = re.compile(r"[A-Za-z0-9_]+|[ \t\r]+|\n|=>|.", re.S)


def mutate(r, t, n=None, kinds=None):
    for _ in range(n or r.choice([1, 1, 1, 2, 3])):
        k = r.choice(kinds) if kinds else r.randint(0, 17)
        toks = TOKRE.findall(t)
        if not toks:
            return r.choice(VOCAB)
        i = r.randrange(len(toks))
        if k <= 1:
            del toks[i]
        elif k == 2:
            toks.insert(i, toks[i])
        elif k in (3, 4):
            toks.insert(i, r.choice(VOCAB))
        elif k in (5, 6):
            toks[i] = r.choice(VOCAB)
        elif k == 7 and i + 1 < len(toks):
            toks[i], toks[i + 1] = toks[i + 1], toks[i]
        elif k == 8:
            toks = toks[:i]
        elif k in (9, 10):
            lines = "".join(toks).split("\n")
            j = r.randrange(len(lines))
            m = r.randint(0, 3)
            if m == 0:
                del lines[j]
            elif m == 1:
                lines.insert(r.randrange(len(lines) + 1), lines[j])
            elif m == 2 and len(lines) > 1:
                j2 = r.randrange(len(lines))
                lines[j], lines[j2] = lines[j2], lines[j]
            elif j + 1 < len(lines):
                lines[j:j + 2] = [lines[j] + lines[j + 1]]
            toks = ["\n".join(lines)]
        elif k == 14:
            lines = "".join(toks).split("\n")
            lines.insert(r.choice([0, len(lines), r.randrange(len(lines) + 1)]), r.choice(LINES))
            toks = ["\n".join(lines)]
        elif k == 15:     # an escape within a quoted text
            at = [j for j, c in enumerate(toks) if '"' in c]
            j = min(len(toks), r.choice(at or [i]) + r.choice([0, 1, 1, 2, 3]))
            toks.insert(j, r.choice(["\\", "\\\\"]) + r.choice(["t", "n", "r", "\"", "\\", "\t", " ", "\n", "é", "x", "u0041", "'", "#", "0", "\n# \"", "N", "/", ""]))
        elif k == 16:     # something more at the end of a line
            lines = "".join(toks).split("\n")
            j = r.randrange(len(lines))
            lines[j] += r.choice(["", " ", "  "]) + r.choice(["\"", "x", "\"x\"", "404", "=>", ")", "(", ",", ":", "@a", "-", "#c", " # c \"", "\\", "?", "|", "+ a = b", "= 1", "\r", "[]", "<", ">", "!", "{"])
            toks = ["\n".join(lines)]
        elif k == 17:     # the end comes early
            lines = "".join(toks).split("\n")
            toks = ["\n".join(lines[:r.randrange(len(lines) + 1)]), r.choice(["", "\n", "\n\n"]), r.choice(["", " ", "#", "# c", "  # c", "\"", "- ", "  - ", "  - a", "\\", "@", "@a", "+ a", "    + a =", "import", "import ", "error 1", "=", "\t", "\r"])]
        elif k == 11:
            j = r.randrange(len(toks))
            toks.insert(i, toks.pop(j))
        elif k == 12:
            s = "".join(toks)
            j = r.randrange(len(s) + 1)
            s = s[:j] + r.choice(list("ab1_- \n\t#:@\"\\()<>[]{}=|,.+?!/é\u0000\u00bf")) + s[j:]
            toks = [s]
        else:
            s = "".join(toks)
            j = r.randrange(len(s))
            toks = [s[:j] + s[j + 1:]]
        t = "".join(toks)
    return t


def ridl(r, **kw):
    wkw = {k: kw.pop(k) for k in ("layout", "wcom", "quote", "order", "crlf", "trailing") if k in kw}
    if "wcom" in wkw:
        wkw["pcom"] = wkw.pop("wcom")
    kw.setdefault("ascii", True)
    s = schema(r, **kw)
    return s, Writer(r, **wkw)


# ------------------------------------------------------------ trees of files

DIRS = ["", "", "a/", "a/b/", "lib/", "a/c/", "lib/x-y/", "b.c/", "lib/b/", "b/a/", "lib/a/b/"]


def relpath(r, frm, to):
    """a spelling of the path of `to` as seen from the file `frm`"""
    import posixpath
    p = posixpath.relpath(to, posixpath.dirname(frm) or ".")
    if r.chance(0.2) and not p.startswith("."):
        p = "./" + p
    if r.chance(0.1):
        d = posixpath.dirname(frm).split("/")[-1]
        if d and not p.startswith("./"):
            p = "../" + d + "/" + p
    if r.chance(0.05):
        p = p.replace("/", "//", 1)
    if r.chance(0.05):
        p = p.replace("/", "/./", 1)
    return p


def tree(r, n=(2, 6), cyc=0.0, mem=0.3, clash=0.1, miss=0.05, brk=0.08, mut=0.05, deps=(0, 3), wcom=0.05, small=False, root_first=False,
         layout=0.1, hubs=(0, 0)):
    """a directory of files importing one another; file 0 is the root, file i imports later files unless a cycle is wanted"""
    n = r.randint(*n)
    names = []
    while len(names) < n:
        f = r.choice(DIRS) + ("f%d.ridl" % len(names) if r.chance(.6) else "types.ridl")
        if f not in names:
            names.append(f)
    edges = {i: [] for i in range(n)}
    for i in range(n):
        later = list(range(i + 1, n))
        k = min(len(later), r.randint(*deps))
        if i == 0 and later and k == 0 and r.chance(0.9):
            k = 1
        edges[i] = r.sample(later, k)
        if r.chance(0.1) and edges[i]:
            edges[i].append(r.choice(edges[i]))
    for _ in range(r.randint(*hubs)):       # a file that imports most others
        i = r.randrange(max(1, n // 3))
        edges[i] = [j for j in range(i + 1, n) if r.chance(.9)]
        if r.chance(.5):
            r.shuffle(edges[i])
    if r.chance(cyc):
        for _ in range(r.choice([1, 1, 2])):
            a = r.randrange(n)
            b = r.randint(0, a)
            edges[a].insert(r.randint(0, len(edges[a])), b)
    provided = {}
    files = {}
    prefix = lambda i: "" if r.chance(clash) else "F%d" % i
    for i in reversed(range(n)):
        ext, exterr, imports, seen = [], [], [], set()
        for j in edges[i]:
            pt, pe, ps = provided.get(j, ([], [], []))
            members = []
            if r.chance(mem):
                pool = [x for x, _ in pt] + pe + ps
                members = r.sample(pool, r.randint(0, len(pool))) if pool else []
                if r.chance(0.1):
                    members.append("Nothing")
                if members and r.chance(0.1):
                    members.append(members[0])
                if members and r.chance(0.05):
                    members[0] = members[0].lower()
            target = names[j] if not r.chance(miss) else "nofile.ridl"
            imports.append((relpath(r, names[i], target), members))
            for x in pt:
                if (not members or x[0] in members) and x not in ext:
                    ext.append(x)
            exterr += [x for x in pe if (not members or x in members) and x not in exterr]
            seen |= {x for x in ps if not members or x in members}
        px = prefix(i)
        kw = dict(types=(0, 3) if not small else (0, 1), services=(0, 1), errors=(0, 2), fields=(0, 3), methods=(1, 2), args=(0, 2), depth=1)
        s = schema(r, prefix=px, extern=ext, extern_errors=exterr, ascii=True, pcom=wcom, **kw)
        if seen and not s["version"]:
            s["version"] = "v1"
        if r.chance(brk / 2) and i:
            break_schema(r, s)
        W = Writer(r, layout=layout, pcom=wcom)
        # one import statement per group; a statement with members has one path
        groups, plain = [], []
        for im in imports:
            if im[1] or r.chance(0.5):
                groups.append([im])
            else:
                plain.append(im)
                groups.append(None)
        gs = []
        if plain and r.chance(0.5):
            done = False
            for g in groups:
                if g is None:
                    if not done:
                        gs.append(plain)
                        done = True
                else:
                    gs.append(g)
        else:
            for im in imports:
                gs.append([im])
        W.order = r.chance(0.3)
        t = W.doc(s, [g for g in gs if g])
        if r.chance(mut / max(1, n / 3)):
            t = mutate(r, t)
        files[names[i]] = t
        provided[i] = (ext + [(x["name"], x["kind"]) for x in s["types"]], exterr + [e["name"] for e in s["errors"]], sorted(seen) + [v["name"] for v in s["services"]])
    return files, names[0]


# ------------------------------------------------------------------ JSON text

def jstr(r, s, esc):
    out = '"'
    for ch in s:
        c = ord(ch)
        if ch in '"\\':
            out += "\\" + ch
        elif c < 0x20:
            out += {"\n": "\\n", "\t": "\\t", "\r": "\\r"}.get(ch, "\\u%04x" % c) if r.chance(0.7) else "\\u%04X" % c
        elif r.chance(esc):
            if c > 0xffff:
                c -= 0x10000
                out += "\\u%04x\\u%04x" % (0xd800 + (c >> 10), 0xdc00 + (c & 0x3ff))
            elif ch == "/" and r.chance(0.5):
                out += "\\/"
            else:
                out += "\\u%04x" % c
        else:
            out += ch
    return out + '"'


class Raw(str):
    """JSON text to be written as is"""


def jdump(r, v, esc=0.0, ws=0.0, shuffle=0.0):
    w = lambda: r.choice(["", " ", "\n", "\t ", "  "]) if r.chance(ws) else ""
    if isinstance(v, Raw):
        return str(v)
    if v is None:
        return "null"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return jstr(r, v, esc)
    if isinstance(v, list):
        return "[" + w() + (w() + "," + w()).join(jdump(r, x, esc, ws, shuffle) for x in v) + w() + "]"
    items = list(v.items())
    if r.chance(shuffle):
        r.shuffle(items)
    return "{" + w() + (w() + "," + w()).join(jstr(r, k, esc / 2) + w() + ":" + w() + jdump(r, x, esc, ws, shuffle) for k, x in items) + w() + "}"


def json_value(r, s, nulls=0.0, full=False):
    """the JSON document of an abstract schema; sets s['bad'] when a part is not decodable"""
    s["bad"] = False

    def maybe(d, k, v, default):
        """default-valued members may be left out or null"""
        if v == default and not full and r.chance(0.3):
            if r.chance(0.3):
                d[k] = None
            return
        d[k] = v

    def hole(lst):
        if nulls and r.chance(nulls):
            lst.insert(r.randint(0, len(lst)), None)
            s["bad"] = True
        return lst

    def jm(meta):
        out = []
        for g in meta:
            d = {}
            for k, isstr, v in g:
                d[k] = v if isstr else Raw(v)
            out.append(d)
        return out

    def typ(t):
        d = {"kind": t["kind"], "name": t["name"]}
        if t["has"]:
            d["type"] = t["type"]
        elif r.chance(0.2):
            d["type"] = None
        if t["fields"] or full or r.chance(0.3):
            fs = []
            for f in t["fields"]:
                x = {"name": f["name"]}
                if f["has"]:
                    x["type"] = f["type"]
                elif r.chance(0.2):
                    x["type"] = None
                maybe(x, "optional", f["opt"], False)
                maybe(x, "value", f["val"], "")
                maybe(x, "meta", jm(f["meta"]), [])
                maybe(x, "comments", f["com"], [])
                fs.append(x)
            d["fields"] = hole(fs) if t["kind"] != "alias" else fs
        maybe(d, "meta", jm(t["meta"]), [])
        maybe(d, "comments", t["com"], [])
        return d

    def num(x):
        if not re.match(r"^(0|-?[1-9][0-9]*)$", x) or abs(int(x)) >= 2 ** 63:
            s["bad"] = True
        return Raw(x)

    def err(e):
        return {"code": num(e["code"]), "name": e["name"], "message": e["msg"], "httpStatus": num(e["http"])}

    def arg(a):
        d = {"name": a["name"]}
        if a["has"]:
            d["type"] = a["type"]
        elif r.chance(0.5):
            d["type"] = None
        maybe(d, "optional", a["opt"], False)
        return d

    def meth(m):
        d = {"name": m["name"]}
        an = {}
        for k, t, v in m["ann"]:
            an[k] = {"annotationType": t, "value": v}
            if nulls and r.chance(nulls):
                an[k] = None
                s["bad"] = True
        maybe(d, "annotations", an, {})
        maybe(d, "comments", m["com"], [])
        maybe(d, "succinct", m["suc"], False)
        maybe(d, "streamInput", m["sin"], False)
        maybe(d, "streamOutput", m["sout"], False)
        maybe(d, "inputs", hole([arg(a) for a in m["ins"]]), [])
        maybe(d, "outputs", hole([arg(a) for a in m["outs"]]), [])
        maybe(d, "errors", m["errs"], [])
        return d

    def svc(v):
        d = {"name": v["name"]}
        maybe(d, "comments", v["com"], [])
        maybe(d, "methods", hole([meth(m) for m in v["methods"]]), [])
        return d

    d = {}
    for k in ("webrpc", "name", "version", "basepath"):
        maybe(d, k, s[k], "")
    maybe(d, "types", hole([typ(t) for t in s["types"]]), [])
    maybe(d, "errors", hole([err(e) for e in s["errors"]]), [])
    maybe(d, "services", hole([svc(v) for v in s["services"]]), [])
    if r.chance(0.1):
        d["extra"] = {"x": [1, None]}
    return d


def json_text(r, s, nulls=0.0, esc=0.1, ws=0.2, full=False):
    return jdump(r, json_value(r, s, nulls, full), esc * r.random(), ws if r.chance(0.5) else 0, 0.5)
