"""Calls to the reference API: plans of calls (no expectations) and the events TLC reads."""
import base64
import json

METHODS = ["GetEmpty", "GetError", "GetOne", "SendOne", "GetMulti", "SendMulti", "GetComplex", "SendComplex", "GetEnumList", "GetEnumMap", "GetSchemaError"]
IN = {"SendOne", "SendMulti", "SendComplex", "GetSchemaError"}
OUT = {"GetOne", "GetMulti", "GetComplex", "GetEnumList", "GetEnumMap"}
CODES = [0, -1, -2, -3, -4, -5, -6, -7, -8, -9, 1, 2, 3, 4, 5, 6, 7, 8, 100, 101, 102, 103, 200, 201, 202, 300, 301, 302]
OK = dict(kind="ok", code=0, text="", value="")


def dumps(v):
    return json.dumps(v, sort_keys=True, separators=(",", ":"), ensure_ascii=False)


def text(r):
    return "".join(r.choice("ab Z09_-./\\\"'{}[]:,\n\té€😀<>&=%") for _ in range(r.choice((0, 1, 2, 5, 20))))


def simple(r):
    return None if r.random() < .1 else dict(id=r.choice((0, 1, -1, 7, 2 ** 53 + 1, -2 ** 63, 2 ** 63 - 1, r.randrange(10 ** 6))), name=text(r))


def user(r):
    return None if r.random() < .15 else dict(id=r.choice((0, 1, 2 ** 64 - 1, 2 ** 53 + 1)), USERNAME=text(r), role=text(r))


def mapof(r, f):
    return None if r.random() < .15 else {text(r): f(r) for _ in range(r.choice((0, 1, 2, 3)))}


def listof(r, f):
    return None if r.random() < .15 else [f(r) for _ in range(r.choice((0, 1, 2, 5)))]


def u32(r):
    return r.choice((0, 1, 2 ** 32 - 1))


def anyval(r, d=0):
    k = r.random()
    if k < .3 or d > 3:
        return r.choice((None, True, False, 0, 1, -5, 123456, text(r)))
    return listof(r, lambda q: anyval(q, d + 1)) if k < .6 else mapof(r, lambda q: anyval(q, d + 1)) if k < .8 else text(r)


def cplx(r):
    if r.random() < .07:
        return None
    return dict(meta=mapof(r, anyval), metaNestedExample=mapof(r, lambda q: mapof(q, u32)), namesList=listof(r, text),
                numsList=listof(r, lambda q: q.choice((0, -2 ** 63, 2 ** 63 - 1, 2 ** 53 + 1))), doubleArray=listof(r, lambda q: listof(q, text)),
                listOfMaps=listof(r, lambda q: mapof(q, u32)), listOfUsers=listof(r, user), mapOfUsers=mapof(r, user), user=user(r),
                status=r.choice(("AVAILABLE", "NOT_AVAILABLE")))


def payload(r, m):
    """a value for the arguments or the results of a method"""
    return {"SendOne": lambda: dict(one=simple(r)), "GetOne": lambda: dict(one=simple(r)),
            "SendMulti": lambda: dict(one=simple(r), two=simple(r), three=simple(r)), "GetMulti": lambda: dict(one=simple(r), two=simple(r), three=simple(r)),
            "SendComplex": lambda: dict(complex=cplx(r)), "GetComplex": lambda: dict(complex=cplx(r)),
            "GetEnumList": lambda: dict(list=listof(r, lambda q: q.choice(("AVAILABLE", "NOT_AVAILABLE")))),
            "GetEnumMap": lambda: dict(map=None if r.random() < .1 else {a: q for a in ("NONE", "READ", "WRITE", "ADMIN", "OWNER") if r.random() < .5 for q in [r.choice((0, 1, 2 ** 64 - 1))]}),
            "GetSchemaError": lambda: dict(code=r.choice((0, 1, -7, 2 ** 63 - 1)))}.get(m, lambda: {})()


def act(r, kinds, m):
    k = r.choice(kinds)
    if k == "bad" and m != "GetComplex":
        k = "err"
    if k == "ok":
        return dict(OK)
    return dict(kind=k, code=r.choice(CODES), text=text(r) if k != "plain" else text(r), value="")


def plan(r, m, **kw):
    return dict(dict(m=m, args=dumps(payload(r, m)) if m in IN else "{}", bad=False, raw=False, verb="", path="", url="", ct="", body="", bodyok=True, short=False, pre="", net="",
                     hook=dict(OK), hdl=dict(OK, value=dumps(payload(r, m)) if m in OUT else "{}"), repl=dict(OK)), **kw)


def goodcall(r):
    return plan(r, r.choice(METHODS))


def failcall(r):
    m = r.choice(METHODS + ["GetComplex", "SendComplex"])
    p = plan(r, m)
    x = r.random()
    if x < .4:
        p["hdl"] = act(r, ("err", "err", "plain", "wrapped", "panic", "bad"), m)
    elif x < .55:
        p["hook"] = act(r, ("err", "plain", "wrapped", "panic"), "")
    elif x < .62:
        p["pre"] = "cancel"
    elif x < .66 and m == "SendComplex":
        p["bad"] = True
    if r.random() < .4:
        p["net"] = r.choice(("down", "lost", "cut", "half", "html", "noclose"))
    if r.random() < .3:
        p["repl"] = act(r, ("err",), "")
    return p


PATHS = ["/rpc/TestApi/", "/rpc/TestApi", "/", "/rpc/testapi/GetEmpty", "/rpc/TestApi/getEmpty", "/rpc/TestApi/GetEmpty/", "/TestApi/GetEmpty", "/rpc//TestApi/GetEmpty",
         "/rpc/TestApi/GetEmpt", "/rpc/TestApi/GetEmptyy", "/rpc/Other/GetEmpty", "//rpc/TestApi/GetEmpty", "/rpc/TestApi/GetEmpty.", "/x/rpc/TestApi/GetEmpty", "/rpc/TestApi/../TestApi/GetEmpty"]
TYPES = ["application/json", "application/json; charset=utf-8", "APPLICATION/JSON", "application/Json ;x=y", "  application/json", ";application/json", "application/json,text/plain",
         "text/json", "application/jsonx", "application/ json", "", "application/x-www-form-urlencoded", "text/plain; application/json", "application/json;", "json"]


def rawcall(r):
    m = r.choice(METHODS)
    path = "/rpc/TestApi/" + m if r.random() < .75 else r.choice(PATHS)
    url = path
    if r.random() < .2:
        url += r.choice(("?x=1", "?", "?a=/rpc/TestApi/GetOne"))
    if r.random() < .1 and path.endswith("t"):
        url = url.replace("G", "%47", 1)
    cts = [] if r.random() < .06 else [r.choice(TYPES[:4]) if r.random() < .6 else r.choice(TYPES)]
    if r.random() < .06:
        cts += [r.choice(TYPES)]
    p = plan(r, m, raw=True, verb=r.choice(("POST", "POST", "POST", "POST", "GET", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "post", "Post", "CONNECTED")), path=path or "/", url=url or "/", cts=cts)
    good = p["args"].encode()
    if r.random() < .35:
        bad = [b"", b"{", b"nul", good + b"}", good + b" x", b"[1]", b'"x"', b"7", good[:-1]]
        if m != "GetSchemaError":
            k = {"SendComplex": "complex"}.get(m, "one")
            bad += [b'{"%s":5}' % k.encode(), b'{"%s":[]}' % k.encode(), b'{"%s":{"id":"x","listOfUsers":4}}' % k.encode()]
        else:
            bad += [b'{"code":"x"}', b'{"code":1.5}', b'{"code":9223372036854775808}']
        b = r.choice(bad)
        p["bodyok"] = False
    else:
        b = r.choice((good, b" " + good + b"\n", good))
    p["body"] = base64.b64encode(b).decode()
    p["short"] = r.random() < .07
    if r.random() < .3:
        p["hook"] = act(r, ("err", "plain", "wrapped", "panic"), "")
    if r.random() < .3:
        p["hdl"] = act(r, ("err", "plain", "wrapped", "panic"), m)
    if r.random() < .3:
        p["repl"] = act(r, ("err",), "")
    return p


def case(calls, cfg, sched=(), free=False):
    c = dict(kind="rpc", cfg=dict(dict(hook=False, onerr=False, recover=True, real=False, mount=False, prefix=""), **cfg), sched=list(sched), free=free, calls=[])
    for p in calls:
        q = dict(p, hdl=dict(p["hdl"], value=json.loads(p["hdl"]["value"] or "{}")), hook=dict(p["hook"], value={}), repl=dict(p["repl"], value={}), args=json.loads(p["args"]))
        q["raw"] = dict(Verb=p["verb"], Path=p["url"], CT=p.get("cts", []), Body=p["body"], Short=p["short"]) if p["raw"] else None
        q["plan"] = p
        c["calls"].append(q)
    return c


def scenarios(r, n, make, real=.2):
    out = []
    for _ in range(n):
        cfg = dict(hook=r.random() < .6, onerr=r.random() < .5, recover=r.random() < .6, real=r.random() < real)
        cfg["prefix"] = r.choice(("", "", "", "/", "/pre", "/pre/x/", "?q=1", "/pre?q=/rpc#f", "#/x"))
        calls = [make(r) for _ in range(r.choice((1, 2, 3, 6, 12)))]
        if not any(p["raw"] for p in calls):
            cfg["mount"] = r.random() < .2
        sched = []
        if r.random() < .4:
            sched = [i + 1 for i in range(len(calls)) for _ in range(6)]
            r.shuffle(sched)
        out.append(case(calls, cfg, sched, free=r.random() < .7))
    return out


def fill(r, x):
    """a behaviour of the model, with values"""
    calls = []
    for p in x["calls"]:
        q = plan(r, p["m"])
        m = p["m"]
        if p["raw"]:
            m = p["path"].rsplit("/", 1)[1] or "GetEmpty"
            q = plan(r, m)
            b = q["args"].encode() if p["bodyok"] else b'{"one":'
            q.update(cts=[p["ct"]], body=base64.b64encode(b).decode())
        for k in ("bad", "raw", "verb", "path", "url", "bodyok", "short", "pre", "net", "hook", "repl"):
            q[k] = p[k]
        if p["hdl"]["kind"] != "ok":
            q["hdl"] = p["hdl"]
        calls.append(q)
    return case(calls, x["cfg"], x["sched"])


def event(c, o):
    calls = []
    for q in c["calls"]:
        p = dict(q["plan"])
        p["ct"] = "|".join(x.strip(" ") for x in p.pop("cts", []))
        p.pop("body")
        calls.append(p)
    return dict(kind="rpc", cfg={k: c["cfg"][k] for k in ("hook", "onerr", "recover", "prefix")}, calls=calls, obs=[clean(e) for e in o["ev"]])


def clean(e):
    if e["e"] == "done" and e["ok"]:
        e = dict(e, err=dict(typed=False))
    if e["e"] == "done" and not e["ok"] and "is" in e["err"]:
        e = dict(e, err=dict(e["err"], **{"is": e["err"]["is"] or []}))
    return e
