"""Templates that come from a repository: webrpc-gen run again and again against
a stand-in for GitHub (a proxy on the loopback, with a certificate of its own),
its template cache aged, and its writes cut off in the middle."""
import base64
import concurrent.futures
import multiprocessing
import json
import os
import re
import resource
import shutil
import socket
import ssl
import subprocess
import threading
import time
import urllib.parse

import core

TLS = os.path.join(core.VERIF, "tls")
UNIT = 1500         # seconds
SCHEMA = "webrpc = v1\n\nname = x\nversion = v1\n\nservice Api\n  - Ping()\n"
OLD = {"go": "golang", "ts": "typescript", "js": "javascript"}


def source(t):
    """the repository, and the place in it, that a target names"""
    if t in OLD:
        return "github.com/webrpc/gen-%s@v0.6.0" % OLD[t]
    return t.replace("@heads/", "@").replace("@tags/", "@") if "/" in t else "github.com/webrpc/gen-" + t.lower()


def contents(v):
    """the files of a version: main, and those of n, x and z that it has, each longer than the one before"""
    i = v["id"]
    r = {"main.go.tmpl": '{{define "main"}}@@CACHE main={{template "id" .}} x={{template "x" .}} tail={{template "tail" .}}{{end}}'
                         '{{define "id"}}%d{{end}}{{define "tail"}}main%d{{end}}{{define "x"}}main%d{{end}}' % (i, i, i)}
    if v["bad"]:
        r["main.go.tmpl"] += "{{nope}}"
    for k, n in enumerate(("n", "x", "z")):
        if n in v["files"]:
            r[n + ".go.tmpl"] = '{{define "%s"}}%s%d{{end}}{{/* %s */}}' % ("tail" if n == "z" else "x", n, i, "." * 400 * (k + 1))
    if v["files"]:
        r["README.md"] = "{{nope"
    return r


class Server:
    """answers for api.github.com and raw.githubusercontent.com, for each case what it has published"""

    def __init__(self):
        self.cases = {}         # case -> source -> (how, version)
        self.asked = {}         # case -> number of requests
        self.kill = {}          # case -> what to do when templates are sent
        self.ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        self.ctx.load_cert_chain(os.path.join(TLS, "cert.pem"), os.path.join(TLS, "key.pem"))
        self.s = socket.socket()
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(256)
        self.port = self.s.getsockname()[1]
        threading.Thread(target=self.accept, daemon=True).start()

    def accept(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def close(self):
        self.s.close()

    @staticmethod
    def head(f):
        """the request line and the headers, or None"""
        l = f.readline(65536).decode("latin1").strip()
        if not l:
            return None
        h = {}
        while True:
            x = f.readline(65536).decode("latin1").strip()
            if not x:
                return l.split(" "), h
            k, _, v = x.partition(":")
            h[k.strip().lower()] = v.strip()

    def serve(self, c):
        try:
            c.settimeout(60)
            f = c.makefile("rb", 0)
            q = self.head(f)
            if not q or q[0][0] != "CONNECT":
                c.close()
                return
            case = base64.b64decode(q[1].get("proxy-authorization", "Basic ").split(" ")[1]).decode().split(":")[0]
            self.asked[case] = self.asked.get(case, 0) + 1
            host = q[0][1].split(":")[0]
            if "*down" in self.cases.get(case, {}):
                c.sendall(b"HTTP/1.1 502 Bad Gateway\r\nContent-Length: 0\r\n\r\n")
                c.close()
                return
            c.sendall(b"HTTP/1.1 200 Connection established\r\n\r\n")
            s = self.ctx.wrap_socket(c, server_side=True)
            f = s.makefile("rb", 0)
            while True:
                q = self.head(f)
                if not q:
                    break
                st, body = self.answer(self.cases.get(case, {}), host, q[0][1])
                kill = self.kill.get(case)
                if host.startswith("raw") and kill:
                    kill()
                s.sendall(b"HTTP/1.1 %d X\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n" % (st, len(body)) + body)
            s.close()
        except (OSError, ValueError, IndexError):
            c.close()

    def answer(self, remote, host, uri):
        u = urllib.parse.urlsplit(uri)
        p = urllib.parse.unquote(u.path).strip("/")
        if host == "raw.githubusercontent.com":
            src, _, name = p.partition("/-/")
            how, v = remote.get(src, ("norepo", None))
            if how != "up":
                return 500, b"no"
            return 200, contents(v)[name].encode()
        m = re.match(r"repos/([^/]+)/([^/]+)(?:/contents(?:/(.*))?)?$", p)
        if not m:
            return 404, b"{}"
        repo = "github.com/%s/%s" % m.groups()[:2]
        if "/contents" not in p:
            if not any((s + "@").startswith((repo + "@", repo + "/")) and how != "norepo" for s, (how, _) in remote.items()):
                return 404, b'{"message":"Not Found"}'
            return 200, json.dumps(dict(name=m.group(2), default_branch="main")).encode()
        path, ref = (m.group(3) or "").strip("/"), dict(urllib.parse.parse_qsl(u.query)).get("ref", "")
        base = repo + ("/" + path if path else "")
        src = base if ref == "main" else base + "@" + ref
        how, v = remote.get(src, ("norepo", None))
        if how == "norepo":
            return 404, b'{"message":"Not Found"}'
        if how == "error":
            return 500, b'{"message":"Server Error"}'
        if how == "garbled":
            return 200, b'<html>'
        pre = path + "/" if path else ""
        es = []
        if how in ("up", "rawfail"):
            for n, t in contents(v).items():
                es.append(dict(type="file", name=n, path=pre + n, size=len(t), download_url="https://raw.githubusercontent.com/%s/-/%s" % (src, n)))
        if how == "empty":
            es.append(dict(type="file", name="README.md", path=pre + "README.md", size=1, download_url="https://raw.githubusercontent.com/%s/-/README.md" % src))
        return 200, json.dumps(es).encode()


def age(tmp, units):
    """everything that is kept gets older"""
    for p, _, fs in os.walk(tmp):
        for n in fs:
            q = os.path.join(p, n)
            try:
                with open(q) as f:
                    t = f.read()
                if re.match(r"\s*\d{9,11}\s*$", t):
                    with open(q, "w") as f:
                        f.write(str(int(t) - units * UNIT))
                st = os.stat(q)
                os.utime(q, (st.st_atime - units * UNIT, st.st_mtime - units * UNIT))
            except (OSError, UnicodeDecodeError):
                pass


def limit(n):
    def go():
        core._limit()
        if n:
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return go


VOID = dict(st="", fetched=False, id="", x="", tail="")


def one(exe, top, srv, key, c, timeout):
    tmp = os.path.join(top, "tmp")
    os.makedirs(tmp)
    with open(os.path.join(top, "a.ridl"), "w") as f:
        f.write(SCHEMA)
    open(os.path.join(top, "file"), "w").close()
    remote = srv.cases[key] = {}
    env = dict(PATH="/usr/bin:/bin", HOME=top, SSL_CERT_FILE=os.path.join(TLS, "cert.pem"), SSL_CERT_DIR="/nonexistent",
               HTTPS_PROXY="http://%s:x@127.0.0.1:%d" % (key, srv.port))
    obs, msgs, st = [], [], "cache"
    for s in c["steps"]:
        if s["op"] == "publish":
            remote[source(s["t"])] = ("up", s["v"])
        elif s["op"] == "break":
            v = remote.get(source(s["t"]), ("", dict(id=0, files=[], bad=False)))[1]
            remote[source(s["t"])] = (s["how"], v)
        elif s["op"] == "wait":
            age(tmp, s["n"])
        if s["op"] != "run":
            obs.append(VOID)
            continue
        how, v = remote.get(source(s["t"]), ("norepo", None))
        remote.pop("*down", None)
        if how == "down":
            remote["*down"] = ("down", None)
        n = 0
        if s["cut"] == "first":
            n = 10
        if s["cut"] == "last" and v:
            n = max(len(t) for p, t in contents(v).items() if p.endswith(".go.tmpl")) - 1
        srv.asked[key] = 0
        e = dict(env, TMPDIR=os.path.join(top, "file", "tmp") if s["cut"] == "none" else tmp)
        p = subprocess.Popen([exe, "-schema=a.ridl", "-target=" + s["t"]] + (["-refreshCache"] if s["refresh"] else []), cwd=top, env=e, stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limit(n))
        if s["cut"] == "kill":
            srv.kill[key] = lambda: threading.Timer(s["delay"], p.kill).start()
        try:
            out, err = [x.decode("utf-8", "replace") for x in p.communicate(timeout=timeout)]
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            st = "hang"
            break
        finally:
            srv.kill.pop(key, None)
        o = dict(VOID, st="fail" if p.returncode == 1 and not out else "other", fetched=srv.asked[key] > 0)
        m = re.match(r"@@CACHE main=(\d+) x=(\w+) tail=(\w+)\n?$", out)
        if p.returncode < 0 or re.search(r"^goroutine \d+", err, re.M):
            o["st"] = "died"
            if p.returncode != -9:
                st = "crash"
        elif m and p.returncode == 0:
            o.update(st="ok", id=m.group(1), x=m.group(2), tail=m.group(3))
        obs.append(o)
        msgs.append(err[-300:])
        if st != "cache":
            break
    return dict(st=st, both=False, pos=[], chain=[], s={}, ops=[], leak=0, msg="\n".join(msgs[-2:]), subs=[], cache=obs)


def part(exe, top, cases, ids, timeout):
    srv = Server()
    out = []
    for i in ids:
        d = os.path.join(top, str(i))
        out.append((i, one(exe, d, srv, "c%d" % i, cases[i], timeout)))
        srv.cases.pop("c%d" % i, None)
        shutil.rmtree(d, ignore_errors=True)
    srv.close()
    return out


def run(exe, work, cases, timeout=20, workers=core.CPUS):
    results = [None] * len(cases)
    top = work.path("cache")
    n = min(2 * workers, len(cases))
    with concurrent.futures.ProcessPoolExecutor(n, mp_context=multiprocessing.get_context("fork")) as ex:
        for f in [ex.submit(part, exe, top, cases, range(k, len(cases), n), timeout) for k in range(n)]:
            for i, o in f.result():
                results[i] = o
    shutil.rmtree(top, ignore_errors=True)
    return results


def event(c, o):
    void = dict(t="", v=dict(id=0, files=[], bad=False), n=0, refresh=False, cut="")
    steps = []
    for s in c["steps"]:
        x = dict(void, **{k: v for k, v in s.items() if k in ("op", "t", "v", "n", "refresh", "cut")})
        x["v"] = dict(x["v"], id=str(x["v"]["id"]))
        steps.append(x)
    return dict(kind="cache", steps=steps, obs=o["cache"])
