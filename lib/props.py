"""Per property: which cases are generated, which models are checked, and which
differences count."""
import posixpath

import gen
from core import b64, unb64

SYN = {"syn>ok", "syn>err", "ok>syn", "err>syn"}
ACCEPT = {"ok>syn", "ok>err", "syn>ok", "err>ok"}
BAD = {"crash", "hang", "both", "leak"}
POS = {"pos", "chain"}


def doc(text, root="a.ridl", ops=(), **kw):
    return dict(kind="ridl", files=[dict(p=root, b=b64(text))], root=root, ops=list(ops), **kw)


def files(fs, root, ops=(), kind="ridl", **kw):
    return dict(kind=kind, files=[dict(p=k, b=b64(v)) for k, v in fs.items()], root=root, ops=list(ops), **kw)


def jcase(text, raw, ops=()):
    return dict(kind="json", json=b64(text), raw=raw, ops=list(ops))


EXPORT = [dict(op="export")]


# ------------------------------------------------------------ random sources

def docs(r, n, pcom=0.1, wcom=0.1, brk=0.0, mut=0.0, ops=(), kinds=None, **kw):
    out = []
    for _ in range(n):
        s, W = gen.ridl(r, pcom=pcom, wcom=wcom, **kw)
        if r.chance(brk):
            gen.break_schema(r, s)
        t = W.doc(s)
        if r.chance(mut):
            t = gen.mutate(r, t, kinds=kinds)
        out.append(doc(t, ops=ops))
    return out


def jsons(r, n, brk=0.5, nulls=0.02, ops=EXPORT, **kw):
    out = []
    for _ in range(n):
        s = gen.schema(r, pcom=.1, exotic=.4, **kw)
        gen.fill(r, s)
        if r.chance(brk):
            gen.break_schema(r, s)
        t = gen.json_text(r, s, nulls=nulls if r.chance(.3) else 0)
        out.append(jcase(t, s, ops))
    return out


def trees(r, count, ops=(), kind="ridl", **kw):
    out = []
    for _ in range(count):
        f, root = gen.tree(r, **kw)
        out.append(files(f, root, ops, kind))
    return out


def random_ops(r, s, kinds, n=(1, 4)):
    o = []
    names = [v["name"] for v in s["services"]] + ["Nope", (s["services"] or [dict(name="x")])[0]["name"].lower()]
    for _ in range(r.randint(*n)):
        have = [a for v in s["services"] for m in v["methods"] for a in m["ann"]]
        anns = [[k, r.choice(["", "yes", "ADMIN", " ", "no", "", "Yes", "yes ", " ADMIN", "\t", "  "])] for k in r.uniq(gen.ANN_KEYS, 0, 3)]
        if have and r.chance(.5):       # the value of an annotation, or nearly
            k, _, v = r.choice(have)
            v = r.choice([v, v, v.strip(), v + " ", " " + v, v.lower(), v.upper(), v[:-1], v[1:], " %s " % v, v.strip(" ")])
            anns = [a for a in anns if a[0] != k] + [[k, v]]
        o.append(dict(op=r.choice(kinds), names=r.some(names, 0, 3), anns=anns))
    return o


def opdocs(r, n, kinds, steps=(1, 4), **kw):
    out = []
    kw.setdefault("services", (1, 4))
    kw.setdefault("pcom", 0.05)
    links = kw.pop("chain", None)
    for _ in range(n):
        s, W = gen.ridl(r, layout=0, **kw)
        if links:
            gen.chain(r, s, r.randint(*links))
        out.append(doc(W.doc(s), ops=random_ops(r, s, kinds, steps)))
    return out


def soup(r, n):
    """bytes with little regard for any grammar"""
    words = ["webrpc", "=", "v1", "name", "version", "basepath", "import", "struct", "enum", "type", "error", "service", "stream", "map",
             "<", ">", "[", "]", "[]", "(", ")", "{", "}", "-", "+", "@", "#", "!", "#!", "?", ":", ",", "|", ".", "/", "\\", "\"", "\n", "\n",
             "\n", " ", " ", "  ", "\t", "\r\n", "\r", "A", "x", "B1", "0", "1", "99", "=>", "HTTP", "404", "errors", "proxy", "\u00bf", "\u00a1",
             "\x00", "\x01", "\xff", "é", "日本", "🎉", "string", "int", "bigint", "\"a b\"", "\\n", "\\\"", "<=", "from", "ext"]
    out = []
    for _ in range(n):
        if r.chance(0.2):
            t = bytes(r.randrange(256) for _ in range(r.randint(0, 60)))
        else:
            t = "".join(r.choice(words) + r.choice(["", "", " ", " ", "\n"]) for _ in range(r.randint(0, 40))).encode()
            if r.chance(0.2):
                t = b"webrpc = v1\nname = x\nversion = v1\n" + t
            if r.chance(0.1) and t:
                i = r.randrange(len(t))
                t = t[:i] + bytes([r.randrange(256)]) + t[i:]
        out.append(doc(t, nojudge=False))
    return out


def jsoup(r, n):
    """JSON texts, mostly broken ones"""
    out = []
    for _ in range(n):
        s = gen.schema(r, pcom=.1, exotic=.3, types=(0, 3), services=(0, 1))
        gen.fill(r, s, .95)
        if r.chance(.5):
            gen.break_schema(r, s)
        t = gen.json_text(r, s, nulls=.1).encode("utf-8", "surrogatepass")
        for _ in range(r.randint(0, 3)):
            if not t:
                break
            i = r.randrange(len(t))
            k = r.randint(0, 4)
            if k == 0:
                t = t[:i] + t[i + 1:]
            elif k == 1:
                t = t[:i] + r.choice([b"null", b"{}", b"[]", b"0", b"-1", b"1e999", b"true", b"\"\"", b",", b":", b"{", b"}", b"[", b"]", b"\\",
                                      b"\xff", b"\"x\""]) + t[i:]
            elif k == 2:
                t = t[:i]
            elif k == 3:
                j = r.randrange(len(t))
                t = t[:i] + t[j:]
            else:
                import re
                m = list(re.finditer(rb'"[^"\\]*"|\d+|true|false|null|\[\]|\{\}', t))
                if m:
                    x = r.choice(m)
                    t = t[:x.start()] + r.choice([b"null", b"{}", b"[]", b"0", b"-1", b"99999999999999999999", b"1.5", b"true", b"\"\"", b"\"x\"",
                                                  b"[null]", b"[{}]", b"{\"a\":null}", b"\"map<\"", b"\"[]\"", b"\"map<string,\""]) + t[x.end():]
        out.append(dict(kind="json", json=b64(t), raw={}, ops=[dict(op="export"), dict(op="bigint"), dict(op="shake", names=["API", "Chat"]),
                   dict(op="match", anns=[["auth", ""]]), dict(op="ignore", anns=[["acl", "x"]]), dict(op="services", names=["API"])], nojudge=True))
    return out


ALLOPS = ["services", "match", "ignore", "shake", "bigint", "view"]


def variants(r, n, per=10):
    """groups of JSON documents of one schema and its neighbours: (raw, text)"""
    out = []
    for _ in range(n):
        s = gen.schema(r, pcom=.2, exotic=.3, types=(1, 4), services=(0, 2))
        gen.fill(r, s)
        g = []
        for _ in range(per):
            x = gen.clone(s)
            if r.chance(.7):
                gen.tweak(r, x)
            g.append((x, gen.json_text(r, x, full=True)))
        out.append(g)
    return out


PLACES = ["", "p/", "p/q/", "v1.2/", "x y/", "é/", "p.ridl/"]


def spell(r, cwd, target):
    """a way to write the path of target in the directory cwd"""
    import posixpath
    if r.chance(.35):
        p = "{dir}/" + target
    else:
        p = posixpath.relpath("/" + target, "/" + cwd)
    segs = p.split("/")
    while r.chance(.3):
        i = r.randint(1 if segs[0] == "{dir}" else 0, len(segs) - 1)
        k = r.randint(0, 3)
        if k == 0:
            segs.insert(i, ".")
        elif k == 1 and i > 0:
            segs.insert(i, "")
        elif k == 2 and i > 0 and segs[i - 1] not in ("..", ".", "", "{dir}"):
            segs[i:i] = ["..", segs[i - 1]]
        elif k == 3:
            segs[i:i] = ["nodir", ".."]
    return "/".join(segs)


def filecases(r, n, ops=()):
    out = []
    for _ in range(n):
        place = r.choice(PLACES)
        fs, dirs = [], [d + "" for d in PLACES]
        if r.chance(.7):
            tree, root = gen.tree(r, small=True, n=(1, 4), miss=.02, brk=.03, mut=.03, cyc=.05)
            fs = [dict(p=place + k, b=b64(v)) for k, v in tree.items()]
            target = place + root
            if r.chance(.1):        # the same text under another name
                new = r.choice(["f.RIDL", "f", "f.ridl.txt", ".ridl", "f.json", "ridl", "f.ridl.ridl", "f..ridl", "f.txt.ridl", "f.ridl ", "a.b/f.ridl"])
                new = posixpath.join(posixpath.dirname(target), new)     # its imports keep their meaning
                fs.append(dict(p=new, b=[f["b"] for f in fs if f["p"] == target][0]))
                target = new
        else:
            s = gen.schema(r, pcom=.1, exotic=.3, types=(0, 3), services=(0, 1))
            gen.fill(r, s)
            if r.chance(.2):
                gen.break_schema(r, s)
            target = place + r.choice(["s.json", "s.json", "s.json", ".json", "s.x.json", "s.JSON", "s.ridl", "s", "s.json.txt"])
            fs.append(dict(p=target, b=b64(gen.json_text(r, s, full=True)), raw=s))
        if r.chance(.04):
            target = place + r.choice(["none.ridl", "none.json", "none", "p.ridl", "dir.json"])
        fs.append(dict(p=place + "dir.json/", b=""))
        for d in PLACES[1:]:
            fs.append(dict(p=d, b=""))
        cwd = r.choice(PLACES).rstrip("/")
        out.append(dict(kind="file", files=fs, cwd=cwd, root=spell(r, cwd, target), ops=list(ops)))
    return out


def histories(r, n, steps=(4, 16), files=True, workers=(1, 4), **kw):
    """documents of all kinds, many of which share their paths, and steps over them"""
    out = []
    for _ in range(n):
        ds = []
        for _ in range(r.randint(2, 6)):
            k = r.randint(0, 5)
            if ds and k == 0:       # nearly a document already there
                d = gen.clone(r.choice(ds))
                if d["kind"] == "json":
                    raw = gen.clone(d["raw"])
                    gen.tweak(r, raw)
                    d = jcase(gen.json_text(r, raw, full=True), raw)
                else:
                    f = r.choice([f for f in d["files"] if not f["p"].endswith("/")])
                    if "raw" not in f:
                        f["b"] = b64(gen.mutate(r, unb64(f["b"]).decode("utf-8", "replace")))
            elif k == 1:
                d = jsons(r, 1, brk=.3, ops=())[0]
            elif k == 2 and files:
                d = filecases(r, 1)[0]
                d["nocwd"], d["cwd"] = True, ""
                if not d["root"].startswith("{dir}"):
                    d["root"] = "{dir}/" + posixpath.normpath(d["root"].lstrip("./"))
            elif k == 3:
                d = trees(r, 1, small=True, n=(2, 4), mem=.3, miss=.05, brk=.1, mut=.05, cyc=.1)[0]
            else:
                d = docs(r, 1, brk=.1, mut=.15, pann=.4, types=(1, 4), services=(1, 2), pcom=.2)[0]
            d["ops"] = []
            ds.append(d)
        w, held, st = r.randint(*workers), {}, []
        for _ in range(r.randint(*steps)):
            i = r.randint(1, w)
            if i not in held or r.chance(.5):
                st.append(dict(w=i, doc=r.randint(1, len(ds)), op=dict(op="")))
                held[i] = True
            else:
                p = r.choice(["services", "match", "ignore", "shake", "bigint", "view", "export"])
                st.append(dict(w=i, doc=0, op=dict(op=p, names=r.some(gen.SERVICE_NAMES + ["Nope"], 0, 3),
                                                   anns=[[k, r.choice(["", "yes", "ADMIN", " ", "no"])] for k in r.uniq(gen.ANN_KEYS, 0, 2)])))
        out.append(dict(kind="hist", subs=ds, steps=st, **kw))
    return out


GO_SOURCES = ["package p\nvar  X=1", "package p\n", "package p\n\nfunc f( ) {\nreturn }\n", "package p\nfunc (", "", "x"]
OPT_NAMES = ["client", "name", "x", "server", "schemaHash", "help2", "h2", "Schema", "outt", "src2", "é", "a-b", "schema ", "v"]
OPT_VALS = ["", "true", "a=b", "=", "-x", "a b", "\"q\"", "é日本", "{{.x}}", "@", "$WEBRPC_SCHEMA_VERSION", "\n", "--"]
TARGETS = ["json", "kotlin", "./t/main", "{dir}/t/main", "golang"]


def clicases(r, n):
    """invocations of webrpc-gen"""
    import cli
    emb = cli.embedded()
    out = []
    for _ in range(n):
        k = r.randint(0, 9)
        if k < 6:
            s, W = gen.ridl(r, layout=0, pcom=.05, wcom=0, pann=.5, services=(0, 3), types=(0, 5))
            if r.chance(.3):
                s["basepath"] = ""
            if r.chance(.05):
                gen.break_schema(r, s)
            fs, root = [dict(p="s.ridl", b=b64(W.doc(s)))], "s.ridl"
        elif k < 8:
            tree, root = gen.tree(r, small=True, n=(1, 4), miss=.02, brk=.03, mut=.03, cyc=.05)
            fs = [dict(p=q, b=b64(v)) for q, v in tree.items()]
            s = dict(services=[dict(name=x, methods=[]) for x in gen.SERVICE_NAMES])
        else:
            s = gen.schema(r, pcom=.1, exotic=.3, types=(0, 3), services=(0, 2), pann=.5)
            gen.fill(r, s)
            if r.chance(.1):
                gen.break_schema(r, s)
            root = "s.json"
            fs = [dict(p="s.json", b=b64(gen.json_text(r, s, full=True)), raw=s)]
        for d, role in (("t/main", "main"), ("t/help", "help"), ("t/part", "part"), ("t/bad", "bad"), ("t/fail", "fail"), ("t/exit", "exit"), ("gen-golang", "main"),
                        ("gen-golang/v2", "main"), ("my-gen-golang@v1", "main"), ("t/a@b/main", "main"), ("t/gen-x@v2", "main")):
            if d in ("t/main", "gen-golang") or role == "main" and r.chance(.5) or r.chance(.2):
                fs.append(dict(p=d + "/main.go.tmpl", b="", tmpl=role, label="local " + role))
        if r.chance(.2):
            fs.append(dict(p="t/main/more.go.tmpl", b="", tmpl=r.choice(["part", "part", "bad"]), label="more"))
        if r.chance(.2):
            fs.append(dict(p="t/main/sub/main.go.tmpl", b="", tmpl="bad", label="sub"))
            fs.append(dict(p="t/main/notes.tmpl", b="", tmpl="bad", label="notes"))
        if r.chance(.3):
            fs.append(dict(p="out/old.txt", b=b64("old")))
        cwd = r.choice(["", "", "w", "t"])
        fs += [dict(p=x, b="") for x in ("w/", "t/none/")]
        cache = []
        if r.chance(.35):
            for t in r.uniq(["github.com/webrpc/gen-custom", "github.com/a/b", "github.com/a/b@v1.2", "github.com/webrpc/gen-golang@v0.6.0", "github.com/webrpc/gen-typescript@v0.6.0"], 1, 3):
                cache.append(dict(target=t, fresh=r.chance(.6), info=r.choice([t, t, t + "\n", "github.com/x/kept@v7", ""]), tmpl=r.choice(["main", "main", "main", "help", "bad", "fail"]), label="kept " + t))
        up = "../" if cwd else ""
        # flags
        names = [v["name"] for v in s["services"]] + ["Nope", "", " "]
        have = [a for v in s["services"] for m in v["methods"] for a in m["ann"]]

        def anns():
            p = []
            for _ in range(r.randint(1, 3)):
                if have and r.chance(.6):
                    kk, _, v = r.choice(have)
                    v = r.choice([v, "", v.strip(), v.upper(), v + " "])
                else:
                    kk, v = r.choice(gen.ANN_KEYS), r.choice(["", "yes", "ADMIN", "x:y", "a@b"])
                p.append(r.choice(["@"] * 12 + ["", "x@", " @", "@@"]) + kk + (r.choice([":", ":", "::"]) + v if v or r.chance(.2) else ""))
            if r.chance(.06):
                p.insert(r.randint(0, len(p)), "")
            return ",".join(p)
        t = r.choice(TARGETS) if r.chance(.6) else r.choice(TARGETS + ["json", "kotlin", "./t/main", "golang", "typescript", "%s@%s" % tuple(r.choice(emb)), "github.com/webrpc/gen-%s" % r.choice(emb)[0], "github.com/webrpc/gen-%s@%s" % tuple(r.choice(emb)),
                              "./t/main/", "t/main", "./t/../t/main", "./t/help", "./t/part", "./t/bad", "./t/fail", "./t/exit", "./t/none", "./t/nowhere", "./gen-golang", "./gen-golang/v2", "./my-gen-golang@v1", "./t/a@b/main", "./t/gen-x@v2", "debug", "", "go", "ts", "js",
                              "custom", "Custom", "github.com/a/b", "github.com/a/b@v1.2", "golang@v0.0.1", "Kotlin", "kotlin@", ".", "/"] + [c["target"] for c in cache] * 6)
        if t.startswith("./"):
            t = "./" + up + t[2:] if r.chance(.8) else up + t[2:] if up else t
        args = [["schema", spell(r, cwd, root) if r.chance(.3) else r.choice([up + root, "{dir}/" + root])], ["target", t]]
        o = r.choice(["", "o.txt", "out/new.go", "{dir}/abs.txt"]) if r.chance(.6) else r.choice(["", "", "stdout", "o.txt", "out/new.go", "a/b/c.txt", "{dir}/abs.txt", "./stdout", "out/old.txt", "../up.txt" if cwd else "x/../y.txt", "out", "t/main", "s.ridl/x", "{dir}/t/n/o", "-o.txt", "é.txt", "json"])
        if o or r.chance(.1):
            args.append(["out", o])
        if r.chance(.35):
            args.append(["service", r.choice([","] * 8 + [", ", " ,", ",,"]).join(r.some(names, 0, 3))])
        if r.chance(.3):
            args.append(["methodTreeShake", r.choice([None, None, "true", "false", "1", "F"])])
        if r.chance(.25):
            args.append(["ignore", anns()])
        if r.chance(.2 if "ignore" not in [a[0] for a in args] else .06):
            args.append(["match", anns()])
        if r.chance(.2):
            args.append(["schemaVersion", r.choice(["", "v9", "$WEBRPC_SCHEMA_VERSION", "1 2"])])
        if r.chance(.25):
            args.append(["silent", r.choice([None, "true", "0"])])
        if r.chance(.2):
            args.append(["fmt", r.choice([None, "false", "true", "f"])])
        if r.chance(.15):
            args.append(["refreshCache", r.choice([None, "true", "false"])])
        if t.startswith("golang") and r.chance(.4):
            args.append(["src", r.choice(GO_SOURCES)])
        for _ in range(r.randint(0, 3) if r.chance(.6) else 0):
            args.append([r.choice(OPT_NAMES), r.choice(OPT_VALS + [None])])
        if r.chance(.05):
            args.append([r.choice(["h", "help", "version"]), r.choice([None, None, "true", ""])])
        if r.chance(.3):
            r.shuffle(args)
        if r.chance(.12):       # the same flag again
            a = list(r.choice(args))
            if r.chance(.6):
                a[1] = r.choice(["", "x", None, "json", "v2", "true"])
            args.insert(r.randint(0, len(args)), a)
        words = []
        for k, v in args:
            d = r.choice(["-", "-", "-", "--"] + ["---"] * r.chance(.03) + [""] * r.chance(.02))
            if v is None:
                words.append(d + k)
            elif r.chance(.02):
                words += [d + k, v]
            else:
                words.append(d + k + "=" + v)
        if r.chance(.04):
            words.insert(r.randint(0, len(words)), r.choice(["-", "--", "x", "", "-=x", "--=", "=", "-fmt=maybe", "-silent=", "-version=x", "-out", "-target", "-service", "s.ridl"]))
        if r.chance(.04) and words:
            words.pop(r.randrange(len(words)))
        words = [w.replace("\0", "") for w in words]      # no process can be given these
        env = dict(has=r.chance(.3), val=r.choice(["", "v7.7", "env version"]))
        out.append(dict(kind="cli", files=fs, cwd=cwd, args=words, env=env, cache=cache, again=r.choice(["same", "long"]) if r.chance(.2) else ""))
    return out


# ------------------------------------------------------------ cases of models

_plain = gen.Rng(1)


def mcase(x):
    """a state a model emitted, as a case to execute"""
    if x["kind"] == "ridl":
        return files({f["p"]: f["t"] for f in x["files"]}, x["root"], x["ops"])
    if x["kind"] == "json":
        raw = x["raw"]
        return jcase(gen.json_text(_plain, raw, esc=0, ws=0, full=True), raw, x["ops"])
    if x["kind"] == "file":
        fs = []
        for f in x["files"]:
            t = f["text"] if f["raw"]["bad"] else gen.json_text(_plain, f["raw"], esc=0, ws=0, full=True)
            fs.append(dict(p=f["path"][2:], b=b64(t), raw=f["raw"]))
        fs.append(dict(p="d.ridl/", b=""))
        fs.append(dict(p=x["cwd"][3:] + "/" if x["cwd"] != "/D" else "a/", b=""))
        return dict(kind="file", files=fs, cwd=x["cwd"][3:], root=x["root"], ops=x["ops"])
    if x["kind"] == "hist":
        return dict(kind="hist", subs=[files({f["p"]: f["t"] for f in d}, "a.ridl") for d in x["docs"]], steps=x["steps"])
    if x["kind"] == "tmpl":
        import tmpl
        return tmpl.program(x["prog"], x["opts"])
    if x["kind"] == "cli":
        fs = []
        for f in x["files"]:
            g = dict(p=f["path"][2:], b=b64(f["text"] if f["raw"]["bad"] else gen.json_text(_plain, f["raw"], esc=0, ws=0, full=True)))
            g.update({k: f[k] for k in ("tmpl", "label") if f["tmpl"]})
            if not f["raw"]["bad"]:
                g["raw"] = f["raw"]
            fs.append(g)
        return dict(kind="cli", files=fs, cwd="", args=x["args"], env=x["env"], cache=x["cache"])
    if x["kind"] == "cache":
        return dict(kind="cache", steps=x["steps"])
    raise ValueError(x["kind"])


def bounded(ctx, module, mask=None, label="", ridl=False, bk=None, **consts):
    """check a bounded model and replay each of its states into the code"""
    cs = [mcase(x) for x in ctx.model(module, consts)]
    name = "model %s%s" % (module, " " + label if label else "")
    ctx.conform(name, cs, mask, **bk or {})
    if ridl:        # the same schemas written as RIDL
        out = []
        for c in cs:
            raw = c["raw"]
            if all(t["kind"] in ("alias", "enum", "struct") for t in raw["types"]):
                out.append(doc(gen.Writer(gen.Rng(1), layout=0, pcom=0, crlf=0).doc(raw)))
        ctx.conform(name + " as RIDL", out, mask)


def names(*a):
    return "{%s}" % ", ".join('"%s"' % x for x in a)


# ---------------------------------------------------------------- the checks

def hashes(ctx, r, n):
    """schemas that differ anywhere have different hashes, other spellings the same"""
    import core
    groups = variants(r, n)
    flat = [(x, t) for g in groups for x, t in g]
    cases = [jcase(t, x, EXPORT) for x, t in flat]
    res = core.run_cases(ctx.exe(), ctx.work, cases)
    ev, src, k = [], [], 0
    for g in groups:
        raws, hs = [], []
        for x, _ in g:
            o = res[k]
            k += 1
            if o["st"] == "ok" and o["ops"][0].get("hashtext"):
                raws.append(x)
                hs.append(o["ops"][0]["hashtext"])
        if len(raws) > 1:
            ev.append(dict(kind="hashes", raws=raws, hs=hs, files=[], root="", raw={}, ops=[], obs={}))
            src.append((g, hs))
    if not ev:
        return
    ds, st, _ = core.validate(ctx.work, ev)
    ctx.states += st[1]
    ctx.transitions += st[0]
    ctx.traces += len(ev)
    ctx.evals += len(flat)
    ctx.sources["hash neighbours"] = dict(cases=len(flat), groups=len(ev))
    for d, (g, hs), e in zip(ds, src, ev):
        if d and ctx.reported < 3:
            ctx.fail("hash neighbours", "equal schemas with different hashes, or different schemas with equal hashes", dict(texts=[t for _, t in g], hashes=hs, raws=e["raws"]))


def c01(ctx, r):
    S = ctx.scale
    not_ = {"comments", "pos", "chain"}
    m = lambda t: t.split(":")[-1] not in not_
    bounded(ctx, "MCWrite", m, MaxLen=S(2, 3), Styles=S("{1, 3}", "{1, 2, 3}"))
    bounded(ctx, "MCDoc", m, MaxLen=2, Wanted=names("struct", "field", "enum", "type", "error", "service", "method", "args"))
    ctx.conform("valid documents", docs(r, S(1800, 30000), exotic=.15), m)
    ctx.conform("layout", docs(r, S(1200, 20000), layout=.6, wcom=.35), m)
    ctx.conform("edited documents", docs(r, S(600, 12000), mut=1), m)


def c02(ctx, r):
    S = ctx.scale
    m = lambda t: t in BAD or ">crash" in t or ">hang" in t
    bounded(ctx, "MCChars", m, MaxLen=2, Wanted=S(names("empty", "type", "quote", "ann", "import"), "{}"))
    bounded(ctx, "MCExpr", m, Depth=1, JunkLen=S(2, 4), Modes=names("junk"))
    if not ctx.quick:
        bounded(ctx, "MCChars", m, "3", MaxLen=3, Wanted=names("type"))
        bounded(ctx, "MCDoc", m, MaxLen=3)
    ctx.conform("token soup", soup(r, S(6000, 100000)), m)
    ctx.conform("edited documents", docs(r, S(1000, 16000), brk=.3, mut=.9, ops=EXPORT), m)
    ctx.conform("edited JSON", jsoup(r, S(6000, 100000)), m)
    ctx.conform("import trees", trees(r, S(400, 8000), cyc=.3, mut=.3, brk=.3), m)
    ctx.conform("operations", opdocs(r, S(600, 12000), ALLOPS), m)


def c03(ctx, r):
    S = ctx.scale
    m = lambda t: t in SYN | POS | BAD
    bounded(ctx, "MCDoc", m, MaxLen=S(2, 3))
    if not ctx.quick:
        bounded(ctx, "MCChars", m, MaxLen=2)
    ctx.conform("edited documents", docs(r, S(2800, 50000), mut=1), m)
    ctx.conform("edited documents with comments", docs(r, S(800, 12000), mut=1, wcom=.4, layout=.5), m)
    ctx.conform("valid documents", docs(r, S(400, 8000)), m)
    ctx.conform("import trees with errors", trees(r, S(300, 5000), mut=1, cyc=.1), m)


def c04(ctx, r):
    S = ctx.scale
    bounded(ctx, "MCText", MaxLen=2, RawLen=S(2, 4))
    if not ctx.quick:
        bounded(ctx, "MCText", None, "3", MaxLen=3, RawLen=3, Places=names("error", "meta"))
    ctx.conform("texts", docs(r, S(1800, 36000), exotic=.9, pcom=.2, quote=.8, ops=EXPORT))
    ctx.conform("edited texts", docs(r, S(500, 10000), exotic=.9, quote=.8, mut=.8))
    ctx.conform("escapes", docs(r, S(700, 10000), exotic=.9, quote=.9, wcom=.2, mut=1, kinds=[15]))
    ctx.conform("JSON", jsons(r, S(800, 14000), brk=0))


def c05(ctx, r):
    S = ctx.scale
    bounded(ctx, "MCComments", MaxLen=S(3, 4))
    ctx.conform("comments", docs(r, S(2000, 36000), pcom=.7, wcom=.3))
    ctx.conform("stray comments", docs(r, S(1200, 20000), pcom=.3, wcom=.6, layout=.5))
    ctx.conform("edited documents", docs(r, S(600, 9000), pcom=.6, wcom=.4, mut=1))


def c06(ctx, r):
    S = ctx.scale
    m = lambda t: t in ACCEPT | BAD | SYN or not t.startswith(("comments", "pos", "chain"))
    bounded(ctx, "MCRules", m, ridl=True, MaxEdits=2)
    bounded(ctx, "MCWrite", m, MaxLen=S(2, 3), Styles="{1}")
    ctx.conform("broken RIDL", docs(r, S(1400, 30000), brk=.8, exotic=.1), m)
    ctx.conform("broken RIDL with many services", docs(r, S(400, 6000), brk=.8, services=(2, 5), errors=(2, 6), types=(0, 3), methods=(1, 3)), m)
    ctx.conform("broken JSON", jsons(r, S(1400, 30000), brk=.8, ops=()), m)
    ctx.conform("broken JSON with many services", jsons(r, S(400, 6000), brk=.8, ops=(), services=(2, 5), errors=(2, 6), types=(0, 3), methods=(1, 3)), m)
    ctx.conform("valid RIDL", docs(r, S(500, 8000), exotic=.2), m)


def c07(ctx, r):
    S = ctx.scale
    m = lambda t: t.split(":")[-1] not in {"comments", "pos", "chain"}
    kw = dict(errors=(0, 0), depth=4, types=(2, 7), pann=0, pc=.3)
    bounded(ctx, "MCExpr", m, Depth=S(2, 3), JunkLen=S(2, 4))
    ctx.conform("type expressions in RIDL", docs(r, S(1200, 20000), brk=.4, layout=.4, **kw), m)
    ctx.conform("type expressions in JSON", jsons(r, S(2000, 36000), brk=.4, **kw), m)
    ctx.conform("import trees", trees(r, S(400, 6000)), m)


def c08(ctx, r):
    S = ctx.scale
    bounded(ctx, "MCImports", N=3, MaxEdges=S(3, 4))
    bounded(ctx, "MCImports", None, "with members", N=3, MaxEdges=S(2, 3), Members="TRUE")
    if not ctx.quick:
        bounded(ctx, "MCImports", None, "4 files", N=4, MaxEdges=4)
    ctx.conform("import trees", trees(r, S(900, 18000), ops=EXPORT))
    ctx.conform("filtered imports", trees(r, S(600, 12000), mem=.8, clash=.3, miss=.02))
    ctx.conform("deep trees", trees(r, S(200, 4000), n=(5, 10), deps=(1, 3), small=True))


def c09(ctx, r):
    S = ctx.scale
    m = lambda t: t in ACCEPT | BAD | {"chain"} or t in {"types", "services", "errors"}
    bounded(ctx, "MCImports", m, N=3, MaxEdges=S(4, 5))
    bounded(ctx, "MCImports", m, "4 files", N=4, MaxEdges=S(3, 4))
    bounded(ctx, "MCImports", m, "among many imports", N=3, MaxEdges=S(2, 3), Pad=S(17, 70))
    ctx.conform("cyclic trees", trees(r, S(900, 18000), cyc=.6, mem=.2, brk=0, mut=0, small=True), m)
    ctx.conform("wide and deep trees", trees(r, S(120, 2500), cyc=.5, n=(10, 24), deps=(0, 20), mem=.05, miss=0, brk=0, mut=0, clash=0, small=True)
                + trees(r, S(60, 1200), cyc=.5, n=(10, 24), deps=(1, 1), mem=.05, miss=0, brk=0, mut=0, clash=0, small=True)
                + trees(r, S(60, 1200), cyc=.6, n=(14, 30), deps=(0, 1), hubs=(1, 2), mem=.05, miss=0, brk=0, mut=0, clash=0, small=True), m)
    ctx.conform("acyclic trees", trees(r, S(500, 9000), cyc=0, deps=(1, 4), n=(3, 8), mem=.2, brk=0, mut=0, small=True), m)


def c10(ctx, r):
    S = ctx.scale
    bounded(ctx, "MCRules", MaxEdits=S(1, 2))
    bounded(ctx, "MCWrite", MaxLen=1, Styles="{1, 2, 3}")
    ctx.conform("export of RIDL", docs(r, S(1400, 20000), ops=EXPORT, pcom=.3, exotic=.4))
    ctx.conform("export of JSON", jsons(r, S(1400, 20000), brk=.1))
    ctx.conform("export after filters", opdocs(r, S(500, 8000), ["export", "export", "services", "match", "ignore", "shake"], steps=(3, 6), pann=.5))
    ctx.conform("export of merged trees", trees(r, S(250, 4000), ops=EXPORT))
    hashes(ctx, r, S(120, 2000))


def c11(ctx, r):
    S = ctx.scale
    bounded(ctx, "MCFilter")
    if not ctx.quick:
        bounded(ctx, "MCFilter", None, "all annotations", Used="1..7", Spread="FALSE", MaxOps=1)
        bounded(ctx, "MCFilter", None, "3 steps", Used="{1, 4}", MaxOps=3)
    ctx.conform("filter sequences", opdocs(r, S(1800, 30000), ["services", "match", "ignore", "view", "match", "ignore"], steps=(1, 5), pann=.6))
    ctx.conform("filter sequences with comments", opdocs(r, S(400, 8000), ["services", "match", "ignore"], pcom=.4, pann=.6))


def c12(ctx, r):
    S = ctx.scale
    bounded(ctx, "MCTypes", N=2, MaxMembers=2, Big="FALSE")
    bounded(ctx, "MCTypes", None, "3 structs", N=3, MaxMembers=S(1, 2), Big="FALSE")
    ctx.conform("tree shaking", opdocs(r, S(1800, 30000), ["shake", "shake", "shake", "services", "view"], steps=(1, 3), types=(2, 7), depth=3))
    ctx.conform("tree shaking of long chains", opdocs(r, S(150, 3000), ["shake", "shake", "services"], steps=(1, 2), types=(0, 3), chain=(3, 16)))


def c13(ctx, r):
    S = ctx.scale
    bounded(ctx, "MCTypes", N=S(2, 3), MaxMembers=2, Big="TRUE")
    if not ctx.quick:
        bounded(ctx, "MCTypes", None, "3 members", N=3, MaxMembers=3, Big="TRUE")
    ctx.conform("bigint analysis", opdocs(r, S(1800, 30000), ["bigint"], steps=(1, 1), types=(2, 7), bigint=True, depth=2, pc=.3))
    ctx.conform("long chains", opdocs(r, S(250, 5000), ["bigint"], steps=(1, 1), types=(0, 3), chain=(3, 16)))
    ctx.conform("after other operations", opdocs(r, S(500, 9000), ["bigint", "bigint", "services", "shake", "match"], steps=(2, 4), types=(2, 7), bigint=True))


def c18(ctx, r):
    S = ctx.scale
    bounded(ctx, "MCPaths", MaxLen=S(3, 4))
    ctx.conform("files", filecases(r, S(1500, 24000)))
    ctx.conform("export and reopen", filecases(r, S(400, 6000), ops=EXPORT))


def c19(ctx, r):
    S = ctx.scale
    cs = [mcase(x) for x in ctx.model("MCHistory", dict(MaxLen=S(3, 4)))]
    ctx.conform("model MCHistory", cs)
    ctx.conform("model MCHistory at the same time", [dict(c, conc=True, procs=2, runs=2) for c in cs[::S(3, 1)]], race=True, timeout=60)
    ctx.conform("histories", histories(r, S(500, 8000)))
    ctx.conform("at the same time", histories(r, S(160, 3000), workers=(2, 5), conc=True, procs=3, runs=4), race=True, timeout=60)


def c17(ctx, r):
    S = ctx.scale
    bounded(ctx, "MCGen", bk=dict(gen=True), MaxLen=2, Envs=S("{1}", "{0, 1, 2}"), Bases=S("{1}", "{1, 2}"))
    if not ctx.quick:
        bounded(ctx, "MCGen", None, "3 words", bk=dict(gen=True), MaxLen=3)
    ctx.conform("invocations", clicases(r, S(2000, 40000)), gen=True)


def walks(cs):
    import tmpl
    return [tmpl.walk(c) for c in cs]


def programs(r, n, **kw):
    import tmpl
    return tmpl.programs(r, n, **kw)


def c20(ctx, r):
    S = ctx.scale
    bk = dict(tmpl=True)
    kw = dict(errors=(0, 0), depth=4, types=(2, 7), pann=0, pc=.3)
    bounded(ctx, "MCTmpl", bk=bk, MaxLen=2, TextLen=S(3, 4))
    cs = [mcase(x) for x in ctx.model("MCExpr", dict(Depth=S(2, 3), JunkLen=1, Modes=names("grow")))]
    ctx.conform("model MCExpr", walks([c for c in cs if c["kind"] == "json"]) + walks([c for c in cs if c["kind"] == "ridl"][::S(4, 1)]), **bk)
    ctx.conform("types of RIDL", walks(docs(r, S(500, 9000), **kw)), **bk)
    ctx.conform("types of JSON", walks(jsons(r, S(900, 16000), brk=.02, **kw)), **bk)
    ctx.conform("types of merged trees", walks(trees(r, S(100, 2000))), **bk)
    ctx.conform("programs", programs(r, S(3000, 60000)), **bk)


def cachecases(r, n):
    """long histories over several sources, under any of their names"""
    groups = [["Foo", "foo", "github.com/webrpc/gen-foo"], ["github.com/webrpc/gen-foo@v1.0"], ["github.com/acme/gen-foo"], ["github.com/acme/gen-foo/sub/dir@heads/dev"],
              ["ts", "github.com/webrpc/gen-typescript@v0.6.0"], ["github.com/acme/gen-foo@tags/dev"], ["bar@v2"], ["foo@v1.0"]]
    out = []
    for _ in range(n):
        ts = [r.choice(g) for g in r.sample(groups, r.choice((1, 1, 1, 2, 3)))]
        alias = {t: next(g for g in groups if t in g) for t in ts}
        steps = []

        def publish(t):
            v = dict(id=len(steps) + 1, files=[f for f in ("n", "x", "z") if r.random() < .5], bad=r.random() < .08)
            steps.append(dict(op="publish", t=r.choice(alias[t]), v=v))
        for t in ts:
            publish(t)
        for _ in range(r.randint(2, 6)):
            t = r.choice(ts)
            x = r.random()
            if x < .4:
                publish(t)
            elif x < .6:
                steps.append(dict(op="break", t=t, how=r.choice(("down", "norepo", "error", "garbled", "rawfail", "empty"))))
            if r.random() < .5:
                steps.append(dict(op="wait", n=r.choice((1, 1, 2, 3, 5, 60, 2000))))
            for _ in range(r.choice((1, 1, 2))):
                steps.append(dict(op="run", t=r.choice(alias[t]), refresh=r.random() < .25, cut=r.choice(("", "", "", "", "first", "last", "none", "kill")), delay=r.random() * .008))
        out.append(dict(kind="cache", steps=steps))
    return out


def c21(ctx, r):
    S = ctx.scale
    bk = dict(gen=True)
    seen, cs = set(), []
    for x in ctx.model("MCCache", dict(MaxRuns=2)) + ([] if ctx.quick else ctx.model("MCCache", dict(MaxRuns=3, Ages="{3}"))):
        k = str(x["steps"])
        if k not in seen:
            seen.add(k)
            for s in x["steps"]:
                s["v"]["id"] = int(s["v"]["id"] or 0)
                if s["op"] == "break":
                    s["how"] = ("down", "norepo", "error", "garbled", "rawfail", "empty")[len(seen) % 6]
            cs.append(mcase(x))
    ctx.conform("model MCCache", r.sample(cs, min(len(cs), S(900, 20000))), **bk)
    ctx.conform("histories", cachecases(r, S(500, 9000)), **bk)


def rpccheck(ctx, r, models, make, quick):
    """behaviours of the model (all interleavings within its bounds) and larger random scenarios, half of them with the race detector"""
    import rpc
    S = ctx.scale
    bk = dict(name="verifrpc", src="rpcharness")
    for consts, n in models:
        xs = ctx.model("MCRpc", consts)
        xs = r.sample(xs, min(len(xs), S(n, n * 8)))
        ctx.conform("model MCRpc %s" % consts["Set"], [rpc.fill(r, x) for x in xs], **bk)
    ctx.conform("scenarios", rpc.scenarios(r, S(quick, quick * 20), make, real=0), **bk)
    ctx.conform("scenarios under the race detector, partly over TCP", rpc.scenarios(r, S(quick // 3, quick * 6), make, real=.5), race=True, **bk)


def c14(ctx, r):
    import rpc
    rpccheck(ctx, r, [(dict(N=2, Set='"results"'), 2500)] + ([] if ctx.quick else [(dict(N=3, Set='"few"'), 4000)]), rpc.goodcall, 2500)


def c15(ctx, r):
    import rpc
    rpccheck(ctx, r, [(dict(N=2, Set='"failures"'), 2500)], lambda q: rpc.failcall(q) if q.random() < .8 else rpc.goodcall(q), 3000)


def c16(ctx, r):
    import rpc
    rpccheck(ctx, r, [(dict(N=1, Set='"requests"'), 4000)] + ([] if ctx.quick else [(dict(N=2, Set='"requests"'), 4000)]), lambda q: rpc.rawcall(q) if q.random() < .9 else rpc.goodcall(q), 3500)


def c22(ctx, r):
    """servers that deviate from the reference API (model), command lines, the reference server, waiting"""
    import suite
    S = ctx.scale
    xs = ctx.model("MCSuite", dict(MaxDeviations=2))
    for x in xs:
        x["answers"] = {m: w for m, w in x["answers"].items() if w != "ok"}
    few = [x for x in xs if len(x["answers"]) + len(x["codes"]) < 2]
    xs = few + r.sample(xs, min(len(xs), S(800, 10000)))
    ctx.conform("model MCSuite", [suite.client(r, x) for x in xs], suite=True)
    ctx.conform("command lines and servers", suite.others(r, S(350, 4000)), suite=True)


def c23(ctx, r):
    """every interleaving of a few streams' steps (model), larger scenarios, half of them with the race detector"""
    import stream
    S = ctx.scale
    bk = dict(name="verifstream", src="streamharness")
    for consts, n in [(dict(N=1, Set='"order"'), 600), (dict(N=1, Set='"ends"'), 300), (dict(N=1, Set='"breaks"'), 500), (dict(N=1, Set='"cancels"'), 300), (dict(N=2, Set='"pairs"'), 500)]:
        xs = ctx.model("MCStream", consts)
        xs = r.sample(xs, min(len(xs), S(n, n * 8)))
        ctx.conform("model MCStream %s x%d" % (consts["Set"], consts["N"]), [stream.fill(r, x) for x in xs], **bk)
    ctx.conform("scenarios", stream.scenarios(r, S(1200, 20000)), **bk)
    ctx.conform("scenarios under the race detector", stream.scenarios(r, S(400, 6000)), race=True, **bk)
    ctx.conform("kept alive", stream.longlived(r, S(6, 12), S(11, 32)), timeout=S(40, 90), race=True, **bk)


def lookup(r, s, names=True):
    """asks for names, nearly right and in other letter cases, and for types"""
    have = [x["name"] for k in ("types", "services", "errors") for x in s[k]] + [x["name"] for t in s["types"] for x in t["fields"]] + [m["name"] for v in s["services"] for m in v["methods"]]

    def spell(n):
        k = r.randint(0, 9)
        if k < 3:
            return n
        if k < 7:       # the case of some ASCII letters
            return "".join(c.swapcase() if c.isascii() and r.chance(.5) else c for c in n)
        i = r.randrange(len(n) + 1)
        return r.choice([n + " ", " " + n, n[:-1], n[1:], n + n[-1:], n[:i] + r.choice(["_", "x", "1", ".", "-", "é", "\u212a", "\u0131"]) + n[i:], n.upper(), n.lower(), "[]" + n])
    tn = [t["name"] for t in s["types"]]

    def good(d):
        x = r.random()
        if d and x < .35:
            return "[]" + good(d - 1)
        if d and x < .7:
            return "map<%s,%s>" % (r.choice(gen.INTS + ["string"] + tn * 2), good(d - 1))
        return r.choice(gen.CORE + tn * 3) if r.chance(.95) else spell(r.choice(gen.CORE + tn))
    qs = [spell(r.choice(have)) for _ in range(r.randint(2, 8))] if have else []
    qs += [r.choice(["", "Nope", "map", "int", "_", "1a", "a1", "é", "Éa", "a-b", "a.b", "A\u0000"])]
    es = [r.choice([lambda: good(3), lambda: good(3), lambda: gen.badexpr(r, tn), lambda: r.choice(have or ["x"]), lambda: r.choice(gen.CORE + ["", "map", "[]", "enum", "struct", "<unknown>", "Int", " int"])])() for _ in range(r.randint(2, 8))]
    return dict(op="lookup", names=qs, exprs=es)


def lookups(r, n, how="ridl", **kw):
    out = []
    for _ in range(n):
        if how == "ridl":
            s, W = gen.ridl(r, layout=0, **kw)
        else:
            s = gen.schema(r, **kw)
            gen.fill(r, s)
        ops = [lookup(r, s)]
        for o in random_ops(r, s, ["services", "match", "ignore", "shake", "shake"], (0, 2)):
            ops += [o, lookup(r, s)]
        out.append(doc(W.doc(s), ops=ops) if how == "ridl" else jcase(gen.json_text(r, s), s, ops))
    return out


def c24(ctx, r):
    S = ctx.scale
    xs = [mcase(x) for x in ctx.model("MCLookup", dict(MaxDecl=S(3, 4)))]
    ctx.conform("model MCLookup", r.sample(xs, min(len(xs), S(900, 40000))))
    kw = dict(types=(1, 7), services=(0, 4), pcom=.02)
    ctx.conform("lookups on RIDL", lookups(r, S(700, 24000), **kw))
    ctx.conform("lookups on JSON", lookups(r, S(700, 24000), "json", exotic=.4, **kw))
    ts = trees(r, S(250, 4000))
    for c in ts:
        c["ops"] = [dict(op="lookup", names=r.some(gen.TYPE_NAMES + gen.SERVICE_NAMES, 3, 8), exprs=["[]" + r.choice(gen.TYPE_NAMES), r.choice(gen.TYPE_NAMES), "map<%s,%s>" % (r.choice(gen.TYPE_NAMES), r.choice(gen.TYPE_NAMES))])]
    ctx.conform("lookups on merged trees", ts)


CHECKS = {k.upper(): v for k, v in globals().items() if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}
LEVEL = {}
ASSUME = ["TLC and the CommunityModules JSON reader evaluate the specification correctly",
          "the harness logs exactly what the public API returned"]
