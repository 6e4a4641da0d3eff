"""webrpc-test as a process, against servers that answer as planned."""
import json
import os
import re
import shutil
import socket
import subprocess
import threading
import time
import urllib.error
import urllib.request
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer

import core
import rpc

VERSION = "v0.31.2"
SIMPLE = ["GetEmpty", "GetError", "GetOne", "SendOne", "GetMulti", "SendMulti", "GetComplex", "SendComplex", "GetEnumList", "GetEnumMap"]
S1, S2, S3 = dict(id=1, name="one"), dict(id=2, name="two"), dict(id=3, name="three")
U = dict(id=1, USERNAME="John-Doe", role="admin")
CPLX = dict(meta={"1": "23", "2": 24}, metaNestedExample={"1": {"2": 1}}, namesList=["John", "Alice", "Jakob"], numsList=[1, 2, 3, 4534643543], doubleArray=[["testing"], ["api"]],
            listOfMaps=[dict(john=1, alice=2, Jakob=251)], listOfUsers=[U], mapOfUsers=dict(admin=U), user=U, status="AVAILABLE")
VALUE = dict(GetEmpty={}, GetOne=dict(one=S1), GetMulti=dict(one=S1, two=S2, three=S3), GetComplex=dict(complex=CPLX), GetEnumList=dict(list=["AVAILABLE", "NOT_AVAILABLE"]), GetEnumMap=dict(map=dict(READ=1, WRITE=2)),
             SendOne={}, SendMulti={}, SendComplex={}, GetError={})
OTHER = dict(GetOne=dict(one=dict(id=5, name="x")), GetMulti=dict(one=S3, two=S2, three=S1), GetComplex=dict(complex=dict(CPLX, namesList=["x"], user=None)),
             GetEnumList=dict(list=["NOT_AVAILABLE", "NOT_AVAILABLE"]), GetEnumMap=dict(map=dict(NONE=7, OWNER=1)))
FEWER = dict(GetOne=dict(one=7), GetMulti=dict(one="x"), GetComplex=dict(complex=[]), GetEnumList=dict(list=["AVAILABLE"]), GetEnumMap=dict(map=dict(READ=1)))
CODES = {0: ("WebrpcEndpoint", "endpoint error", 400, "failed to read file: unexpected EOF"), 1: ("Unauthorized", "unauthorized", 401, "failed to verify JWT token"), 2: ("ExpiredToken", "expired token", 401, ""),
         3: ("InvalidToken", "invalid token", 401, ""), 4: ("Deactivated", "account deactivated", 403, ""), 5: ("ConfirmAccount", "confirm your email", 403, ""), 6: ("AccessDenied", "access denied", 403, ""),
         7: ("MissingArgument", "missing argument", 400, ""), 8: ("UnexpectedValue", "unexpected value", 400, ""), 100: ("RateLimited", "too many requests", 429, "1000 req/min exceeded"),
         101: ("DatabaseDown", "service outage", 503, ""), 102: ("ElasticDown", "search is degraded", 503, ""), 103: ("NotImplemented", "not implemented", 501, ""), 200: ("UserNotFound", "user not found", 400, ""),
         201: ("UserBusy", "user busy", 400, ""), 202: ("InvalidUsername", "invalid username", 400, ""), 300: ("FileTooBig", "file is too big (max 1GB)", 400, ""), 301: ("FileInfected", "file is infected", 400, ""),
         302: ("FileType", "unsupported file type", 400, ".wav is not supported")}


def build(work):
    mod = work.path("go.mod")
    shutil.copy(os.path.join(core.REPO, "go.mod"), mod)
    shutil.copy(os.path.join(core.REPO, "go.sum"), mod[:-4] + ".sum")
    out = os.path.join(work.path("bin"), "webrpc-test")
    os.mkdir(os.path.dirname(out))
    p = subprocess.run(["go", "build", "-modfile", mod, "-ldflags", "-X github.com/webrpc/webrpc.VERSION=" + VERSION, "-o", out, "./cmd/webrpc-test"],
                       cwd=core.REPO, env=core.goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise core.Infra("webrpc-test does not build:\n" + p.stdout)
    return out


class Handler(BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"

    def log_message(self, *a):
        pass

    def answer(self, status, body, raw=None):
        b = raw if raw is not None else json.dumps(body).encode()
        self.send_response(status)
        self.send_header("Content-Type", "application/json")
        self.send_header("Content-Length", str(len(b)))
        self.end_headers()
        self.wfile.write(b)

    def error(self, code, **kw):
        n, m, s, c = CODES[code]
        e = dict(error=n, code=code, msg=m, status=s)
        if c:
            e["cause"] = c
        e.update(kw)
        self.answer(s, {k: v for k, v in e.items() if v is not None})

    def drop(self):
        self.close_connection = True
        self.connection.shutdown(socket.SHUT_RDWR)

    def do_POST(self):
        s = self.server
        body = self.rfile.read(int(self.headers.get("Content-Length") or 0)).decode()
        m = self.path.rsplit("/", 1)[-1]
        if self.path != "/rpc/TestApi/" + m or self.headers.get("Content-Type") != "application/json":
            s.log.append(["stray", self.path])
            return self.answer(404, {})
        try:
            v = json.loads(body)
        except ValueError:
            v = "?"
        s.log.append([m, rpc.dumps(v)])
        if s.upafter > 0 and m == "GetEmpty":
            s.upafter -= 1
            return self.drop() if s.upafter % 2 else self.error(101)
        if m == "GetSchemaError":
            c = v.get("code") if isinstance(v, dict) else None
            if c not in CODES:
                return self.answer(200, {})
            w = s.codes.get(c, "ok")
            if w == "none":
                return self.answer(200, {})
            if w == "html":
                return self.answer(500, None, b"<html>")
            if w == "drop":
                return self.drop()
            return self.error(c, **dict(name=dict(error="Nobody"), msg=dict(msg="something"), status=dict(status=418), code=dict(code=c + 7), cause=dict(cause="because"), nocause=dict(cause=None)).get(w, {}))
        w = s.answers.get(m, "ok")
        if w == "error" or (m == "GetError" and w == "ok"):
            return self.error(6)
        if w == "html":
            return self.answer(500, None, b"<html>")
        if w == "drop":
            return self.drop()
        if w == "junk":
            return self.answer(200, None, b"<html>")
        v = {"other": OTHER, "fewer": FEWER}.get(w, VALUE)
        self.answer(200, v.get(m, {}))


class Server(ThreadingHTTPServer):
    daemon_threads = True
    request_queue_size = 64

    def __init__(self, answers=None, codes=(), upafter=0):
        super().__init__(("127.0.0.1", 0), Handler)
        self.answers, self.codes, self.upafter, self.log = answers or {}, dict(codes), upafter, []
        threading.Thread(target=self.serve_forever, kwargs=dict(poll_interval=.02), daemon=True).start()
        self.url = "http://127.0.0.1:%d" % self.server_address[1]

    def handle_error(self, *a):
        pass

    def stop(self):
        self.shutdown()
        self.server_close()


RIGHT = []
LOCK = threading.Lock()
CLOSED = "http://127.0.0.1:1"


def right():
    with LOCK:
        if not RIGHT:
            RIGHT.append(Server())
    return RIGHT[0].url


PORT = [20000 + os.getpid() * 37 % 9000]


def freeport():
    """a port that nobody is given by chance: below those of outgoing connections"""
    while True:
        with LOCK:
            PORT[0] += 1
            p = PORT[0]
        with socket.socket() as s:
            try:
                s.bind(("0.0.0.0", p))
                return p
            except OSError:
                continue


def call(port, m, args):
    q = urllib.request.Request("http://127.0.0.1:%d/rpc/TestApi/%s" % (port, m), data=args.encode(), headers={"Content-Type": "application/json"})
    try:
        with urllib.request.urlopen(q, timeout=5) as p:
            return p.status, p.read()
    except urllib.error.HTTPError as e:
        return e.code, e.read()


def one(exe, work, c, timeout):
    o = dict(id=c["id"], st="ok", both=False, pos=[], chain=[], s={}, ops=[], leak=0, msg="", subs=[], code=0, calls=[], failed=[], out="", served=[])
    u = Server(c["answers"], c["codes"], c["upafter"]) if "U" in str(c["args"]) else None
    port, taken = freeport(), None
    if "TAKEN" in str(c["args"]):
        taken = socket.socket()
        taken.bind(("0.0.0.0", 0))
        taken.listen(1)
        port = taken.getsockname()[1]

    def real(a):
        n, eq, v = a.partition("=")
        v = {"U": u.url if u else "", "R": right(), "D": CLOSED, "P": str(port), "TAKEN": str(port)}.get(v if eq else a)
        return a if v is None else n + eq + v if eq else v
    args = [real(a) for a in c["args"]]
    t = time.time()
    try:
        p = subprocess.Popen([exe] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=work.dir)
        reqs = list(c["requests"])
        while reqs and p.poll() is None and time.time() - t < timeout:
            try:
                st, b = call(port, *reqs[0])
            except (OSError, urllib.error.URLError):
                time.sleep(.01)
                continue
            try:
                v = json.loads(b)
            except ValueError:
                v = None
            if st != 200 and isinstance(v, dict) and set(v) <= {"error", "code", "msg", "cause", "status"}:
                body = dict(name=v.get("error", ""), code=v.get("code", 0), msg=v.get("msg", ""), status=v.get("status", 0), cause=v.get("cause", ""))
            else:
                body = dict(value=rpc.dumps(v))
            o["served"].append(dict(m=reqs[0][0], args=reqs[0][1], status=st, body=body))
            reqs.pop(0)
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        o["st"] = "hang"
        return o
    finally:
        if u:
            u.stop()
        if taken:
            taken.close()
    el = time.time() - t
    out, err = out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
    o["code"], o["msg"] = p.returncode, (out[:300] + "|" + err)[:2000]
    if "panic:" in err or p.returncode < 0:
        o["st"] = "crash"
    ridl = open(os.path.join(core.REPO, "tests/schema/test.ridl")).read()
    if out == "webrpc-test %s\n" % VERSION:
        o["out"] = "version"
    elif out == ridl + "\n":
        o["out"] = "ridl"
    elif out.endswith("\n") and same_json(out, c):
        o["out"] = "json"
    elif re.fullmatch(r"wait: test server ready in \S+\n", out):
        o["out"] = "ready"
    elif out:
        o["out"] = "other"
    elif c["requests"] and len(o["served"]) == len(c["requests"]):
        o["out"] = "served" if c["lasts"] - .02 <= el < c["lasts"] + 4 else "served for %s" % ("too long" if el > c["lasts"] else "too short")
    if u and "-client" in c["args"][0]:
        o["calls"] = [[m, sent(c, m, b)] for m, b in u.log]
    o["failed"] = sorted(set(re.findall(r"(?m)^(?:Failed tests:\n)?(\w+)\(\): ", err)))
    return o


def same_json(out, c):
    """the schema as JSON: the golden file of the tests, which has the same content"""
    try:
        return json.loads(out) == json.load(open(os.path.join(core.REPO, "tests/schema/test.gen.json")))
    except ValueError:
        return False


def sent(c, m, b):
    """a body as the specification names it"""
    if m == "GetSchemaError":
        return b
    if not m.startswith("Send"):
        return "" if b == "null" else b
    g = "G" + "et" + m[4:]
    if c["answers"].get(g, "ok") not in ("ok", "other"):    # there was nothing to send
        return "NONE"
    if b == rpc.dumps(OTHER[g]):
        return "OTHER"
    return b


def run(exe, work, cases, timeout=20, workers=16):
    res = [None] * len(cases)
    right()
    it = iter(range(len(cases)))
    errs = []

    def go():
        while True:
            with LOCK:
                i = next(it, None)
            if i is None or errs:
                return
            try:
                res[i] = one(exe, work, cases[i], timeout)
            except Exception as e:      # noqa
                errs.append(e)
    ts = [threading.Thread(target=go) for _ in range(16 if workers > 1 else 1)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    return res


def event(c, o):
    return dict(kind="suite", args=c["args"], answers=dict({m: "ok" for m in SIMPLE}, **c["answers"]), codes=[list(x) for x in c["codes"]], upafter=c["upafter"],
                obs=dict(code=o["code"], calls=o["calls"], failed=o["failed"], out=o["out"], served=o["served"]))


def case(args, answers=None, codes=(), upafter=0, requests=(), lasts=0):
    return dict(kind="suite", args=args, answers=answers or {}, codes=list(codes), upafter=upafter, requests=[list(x) for x in requests], lasts=lasts)


def client(r, x):
    u = r.choice((["-url=U"], ["-url", "U"], ["--url=U"], ["-url=D", "-url", "U"], ["-url=U", "rest"], ["-url=U", "--", "-url=R"]))
    return case([r.choice(("-client", "--client", "-client=true", "-client=1"))] + u, x["answers"], x["codes"])


def others(r, n):
    out = []
    words = ["-client", "-server", "-waitForServer", "-version", "-print-schema", "-printRIDL", "-printJSON", "--version", "--printJSON=true", "-printRIDL=false", "-client=no", "client", "-x", "--", "-", "",
             "-url=R", "-url", "R", "D", "-port=P", "-timeout=300ms", "-url=D", "-bogus", "version"]
    for _ in range(n):
        x = r.random()
        if x < .35:
            a = [r.choice(words[:16])] + [r.choice(words) for _ in range(r.choice((0, 0, 1, 2, 3)))]
            if not a or "-server" in a[0] or a[0] in ("-client", "-waitForServer"):
                a = [r.choice(("-version", "-printJSON", "-printRIDL", "-print-schema", "-x", "--version=T"))] + a[1:]
            out.append(case(a))
        elif x < .5:
            out.append(case(["-client"] + r.choice((["-url=R"], ["-url", "R"], ["-url=D"], ["-url=R", "-url=D"], ["-bogus", "-url=R"], ["-url"], ["-url=R", "-timeout=1s"], ["-port=P", "-url=R"], ["-url=ht%tp://"], ["-url=U", "-client"]))))
        elif x < .75:
            up = r.choice((0, 1, 2, 4, 10 ** 6))
            t = "250ms" if up > 50 else "9s"
            a = r.choice((["-url=U", "-timeout=" + t], ["-timeout", t, "-url", "U"], ["-url=D", "-timeout=250ms"], ["-url=R", "-timeout=5s"], ["-timeout=x", "-url=R"], ["-port=P"]))
            out.append(case(["-waitForServer"] + a, upafter=up))
        else:
            reqs = []
            for _ in range(r.choice((3, 8, 30))):
                m = r.choice(SIMPLE + ["GetSchemaError"] * 4)
                a = "{}"
                if m.startswith("Send"):
                    v = json.loads(json.dumps(VALUE["G" + "et" + m[4:]]))
                    if r.random() < .6:
                        k = r.choice(sorted(v))
                        y = r.random()
                        if y < .3:
                            v[k] = None
                        else:
                            f = r.choice(sorted(v[k]))
                            v[k][f] = {int: 77, str: "NOT_AVAILABLE", dict: {}, list: []}[type(v[k][f])]
                    a = rpc.dumps(v)
                elif m == "GetSchemaError":
                    a = rpc.dumps(dict(code=r.choice(sorted(CODES) + [9, -1, 999, 303])))
                reqs.append((m, a))
            t = r.choice((400, 700, 1200))
            a = r.choice((["-port=P", "-timeout=%dms" % t], ["-timeout", "%dms" % t, "-port", "P"], ["-port=P", "-timeout=9s", "-timeout=%dms" % t]))
            if r.random() < .15:
                out.append(case(["-server"] + r.choice((["-port=TAKEN", "-timeout=2s"], ["-port=x"], ["-url=R"], ["-port=P", "-timeout=1"]))))
            else:
                out.append(case(["-server"] + a, requests=reqs, lasts=t / 1000))
    return out
