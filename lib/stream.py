"""Streams of the streaming example: plans (no expectations) and the events TLC reads."""
import json

from rpc import dumps, text, TYPES

OK = dict(kind="ok", code=0, text="", value="")
CODES = [0, -1, -2, -4, -5, -6, -7, -8, -9, 100]
NAMES = {0: ("WebrpcEndpoint", "endpoint error", 400), -7: ("WebrpcInternalError", "internal error", 500), -9: ("WebrpcStreamLost", "stream lost", 400), 100: ("EmptyUsername", "Username must be provided.", 400),
         999: ("Unknown", "what?", 418)}


def message(r, i=0):
    if r.random() < .06:
        return "null"
    return dumps(dict(id=r.choice((i, i, 0, 2 ** 64 - 1, 2 ** 53 + 1)), username=text(r), text=text(r) if r.random() < .9 else "x\n" * r.choice((1, 300, 3000)),
                      createdAt=r.choice(("2020-01-02T03:04:05Z", "0001-01-01T00:00:00Z", "2026-06-30T23:59:59.123456789Z", "1999-12-31T23:00:00-05:30"))))


def args(r):
    return dumps(dict(username=text(r), lastMessageId=r.choice((None, 0, 7, 2 ** 64 - 1))))


def act(r, kinds):
    k = r.choice(kinds)
    return dict(OK) if k == "ok" else dict(kind=k, code=r.choice(CODES), text=text(r), value="")


def plan(r, **kw):
    return dict(dict(raw=False, verb="", path="", url="", cts=[], body="", bodyok=True, pre="", net="", mode="", args=args(r), writers=[], endk=dict(OK), hook=dict(OK), repl=dict(OK),
                     cut="", keep=0, part=False, wait=False, how="", cancelat=-1, wire=[], frag=r.random() < .5, pings=r.random() < .4, pace=0), **kw)


def writers(r):
    n = r.choice((1, 1, 1, 2, 3, 5))
    k = r.choice((0, 1, 2, 5, 12, 40)) if n == 1 else r.choice((0, 1, 3, 8))
    # messages of concurrent writers are told apart by their ids
    out = []
    for w in range(n):
        xs = []
        for i in range(r.choice((k, k, max(0, k - 1)))):
            if n == 1:
                xs.append(message(r, i))
            else:
                xs.append(dumps(dict(id=w * 100 + i, username=text(r), text=text(r), createdAt="2020-01-02T03:04:05Z")))
        out.append(xs)
    return out


def wire(r):
    out = []
    for i in range(r.choice((0, 1, 3, 9))):
        k = r.random()
        out.append(dict(k="blank", v="", err=noerr()) if k < .25 else dict(k="msg", v=message(r, i), err=noerr()))
    k = r.random()
    if k < .35:
        c = r.choice(list(NAMES))
        n, m, s = NAMES[c]
        out.append(dict(k="err", v="", err=dict(name=n, code=c, msg=m, status=s, cause=text(r))))
    elif k < .65:
        out.append(dict(k="junk", v=r.choice(("{", "nul", "[1]", '"x"', '{"message":5}', '{"message":{"id":"x"}}', '{"message":null} x', "7", '{"message":{}}}', "<html>", " \t ")), err=noerr()))
    elif k < .85:
        v = '{"message":' + message(r) + "}"
        out.append(dict(k="half", v=v[:r.randrange(1, len(v))], err=noerr()))
    if k < .65:
        out += [dict(k="msg", v=message(r, 90), err=noerr())] * r.choice((0, 2))
    return out


def noerr():
    return dict(name="", code=0, msg="", status=0, cause="")


def streamplan(r):
    p = plan(r, writers=writers(r))
    n = sum(len(w) for w in p["writers"])
    x = r.random()
    if x < .3:
        p["endk"] = act(r, ("err", "err", "plain", "wrapped", "panic"))
    elif x < .45:
        p.update(cut=r.choice(("lost", "reset", "eof")), keep=r.randrange(n + 1))
        p["part"] = p["keep"] < n and r.random() < .5
        p["wait"] = r.random() < .3
        if p["keep"] == n:
            p["endk"] = act(r, ("ok", "err", "plain"))
    elif x < .62:
        p.update(how=r.choice(("cancel", "deadline")), cancelat=r.choice((0, n, n, r.randrange(n + 1))), wait=r.random() < .7)
        if p["wait"]:
            p["endk"] = act(r, ("ok", "err", "panic"))
        if p["cancelat"] == n and not p["wait"]:
            p["cancelat"] = 0
    elif x < .7:
        p.update(hook=act(r, ("err", "plain", "wrapped", "panic")))
    elif x < .74:
        p["pre"] = "cancel"
    elif x < .77:
        p["net"] = "down"
    elif x < .79:
        p["mode"] = "bad"
    elif x < .9:
        p.update(mode="wire", wire=wire(r), writers=[])
        if r.random() < .2:
            p.update(how=r.choice(("cancel", "deadline")), cancelat=r.choice((0, 0, 1)))
    if r.random() < .3:
        p["repl"] = act(r, ("err",))
    return p


def rawplan(r, cfg):
    p = streamplan(r)
    p.update(raw=True, pre="", net="", mode="", wire=[], cut="", wait=False, how="", cancelat=-1, verb=r.choice(("POST", "POST", "POST", "GET", "PUT", "HEAD", "OPTIONS")), writers=p["writers"][:1] or [[]])
    path = "/v1/Chat/SubscribeMessages" if r.random() < .8 else r.choice(("/v1/Chat/", "/v1/Chat/subscribeMessages", "/v1/Chat/SubscribeMessages/", "/Chat/SubscribeMessages", "/"))
    p.update(path=path, url=path + r.choice(("", "", "?x=1")), cts=[] if r.random() < .06 else [r.choice(TYPES[:4]) if r.random() < .7 else r.choice(TYPES)])
    p["body"] = r.choice(("", " ")) + p["args"]
    if r.random() < .2:
        p.update(bodyok=False, body=r.choice(("", "{", "nul", p["args"] + "}", "[1]", '{"username":5}', '{"lastMessageId":-1}', '{"lastMessageId":"x"}', p["args"][:-1])))
    if not cfg["recover"]:
        for k in ("hook", "endk"):
            if p[k]["kind"] == "panic":
                p[k] = dict(OK)
    return p


def case(calls, cfg, sched=()):
    return dict(kind="stream", cfg=dict(dict(hook=False, onerr=False, recover=True, mount=False), **cfg), sched=list(sched), calls=[dict(p, args=json.loads(p["args"]), plan=p) for p in calls])


def scenarios(r, n, raw=.15):
    out = []
    for _ in range(n):
        cfg = dict(hook=r.random() < .6, onerr=r.random() < .5, recover=r.random() < .6)
        calls = [rawplan(r, cfg) if r.random() < raw else streamplan(r) for _ in range(r.choice((1, 1, 2, 3, 6)))]
        if not any(p["raw"] for p in calls):
            cfg["mount"] = r.random() < .2
        out.append(case(calls, cfg))
    return out


def fill(r, x):
    """a behaviour of the model, with messages and texts of its own"""
    names = {}

    def real(v, i):
        if v not in names:
            names[v] = dumps(dict(id=len(names) + i * 10, username=v, text=text(r), createdAt="2020-01-02T03:04:05Z"))
        return names[v]

    calls = []
    for p in x["calls"]:
        q = plan(r, **{k: p[k] for k in ("hook", "repl", "endk", "cut", "keep", "part", "wait", "how")})
        names.clear()
        q["writers"] = [[real(v, i) for i, v in enumerate(w)] for w in p["writers"]]
        calls.append(q)
    return case(calls, x["cfg"], [dict(t, w=int(t["w"] or 0)) for t in x["sched"]])


def event(c, o):
    calls = []
    for q in c["calls"]:
        p = {k: v for k, v in q["plan"].items() if k not in ("body", "frag", "pings", "pace", "cancelat")}
        p["ct"] = "|".join(x.strip(" ") for x in p.pop("cts"))
        calls.append(p)
    return dict(kind="stream", cfg={k: c["cfg"][k] for k in ("hook", "onerr", "recover")}, calls=calls, obs=o["ev"])


def longlived(r, n, secs):
    """streams that last longer than the server's keep-alive interval, several writers each"""
    calls = []
    for _ in range(n):
        ws, pace = r.choice((1, 2, 3)), r.choice((70, 110, 170))
        calls.append(plan(r, writers=[[dumps(dict(id=w * 1000 + i, username="u", text=text(r), createdAt="2020-01-02T03:04:05Z")) for i in range(secs * 1000 // pace)] for w in range(ws)],
                          pace=pace, endk=act(r, ("ok", "err", "plain")), frag=False))
    return [case(calls, dict(onerr=True))]
