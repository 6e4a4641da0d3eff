"""webrpc-gen as a process: built from the tree with stand-ins for the embedded
generators (stubs/), run in a directory of its own, its output read back."""
import base64
import hashlib
import json
import os
import re
import shutil
import subprocess
import threading
import time

import core

VERSION = "v0.31.2"
MARK = "@@VARS "
STUBS = os.path.join(core.VERIF, "stubs")


def standins(mod):
    """the generators that are embedded, replaced"""
    with open(mod, "a") as f:
        for n in sorted(os.listdir(STUBS)):
            f.write("\nreplace github.com/webrpc/%s => %s\n" % (n, os.path.join(STUBS, n)))


def build(work):
    mod = work.path("go.mod")
    shutil.copy(os.path.join(core.REPO, "go.mod"), mod)
    shutil.copy(os.path.join(core.REPO, "go.sum"), mod[:-4] + ".sum")
    standins(mod)
    d = work.path("bin")
    os.mkdir(d)
    out = os.path.join(d, "webrpc-gen")
    p = subprocess.run(["go", "build", "-modfile", mod, "-ldflags", "-X github.com/webrpc/webrpc.VERSION=" + VERSION, "-o", out, "./cmd/webrpc-gen"],
                       cwd=core.REPO, env=core.goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise core.Infra("webrpc-gen does not build:\n" + p.stdout)
    return out


def embedded():
    """the generators the tree embeds, and their versions"""
    r = []
    for l in open(os.path.join(core.REPO, "go.mod")):
        m = re.match(r"\tgithub\.com/webrpc/gen-(\S+) (\S+)", l)
        if m:
            r.append([m.group(1), m.group(2)])
    return r


# ---------------------------------------------------------------- templates

VARS = open(os.path.join(STUBS, "gen-kotlin", "vars.go.tmpl")).read()


def template(role, label):
    """template text that behaves as Gen.tla says of the role"""
    main = '{{define "main"}}%s{{template "vars" dict "gen" "' + label + '" "v" .}}{{end}}'
    if role == "main":
        return VARS + main % ""
    if role == "help":
        return VARS + main % '{{if exists .Opts "help"}}{{stderrPrint "@@HELP\\n"}}{{exit 0}}{{end}}'
    if role == "part":
        return '{{define "other"}}other{{end}}'
    if role == "bad":
        return '{{define "main"}}{{nope .}}{{end}}'
    if role == "fail":
        return '{{define "main"}}x{{get .Opts "surely-not-given"}}{{end}}'
    if role == "exit":
        return '{{define "main"}}x{{exit 3}}{{end}}'
    raise ValueError(role)


def fnv32a(s):
    h = 2166136261
    for c in s.encode():
        h = ((h ^ c) * 16777619) & 0xffffffff
    return h


# ------------------------------------------------------------------ reading

def raw(v):
    """the abstract schema a decoded JSON document says (the inverse of gen.json_value)"""
    def metas(ms):
        return [[[k, isinstance(m[k], str) and not isinstance(m[k], Num), str(m[k]) if isinstance(m[k], str) else json.dumps(m[k], separators=(",", ":"))]
                 for k in sorted(m)] for m in ms or []]

    def arg(a):
        return dict(name=a.get("name", ""), has=a.get("type") is not None, type=a.get("type") or "", opt=bool(a.get("optional")))

    def field(f):
        return dict(name=f.get("name", ""), has=f.get("type") is not None, type=f.get("type") or "", opt=bool(f.get("optional")), val=f.get("value") or "",
                    meta=metas(f.get("meta")), com=f.get("comments") or [])

    def typ(t):
        return dict(id=0, kind=t.get("kind", ""), name=t.get("name", ""), has=t.get("type") is not None, type=t.get("type") or "",
                    fields=[field(f) for f in t.get("fields") or []], meta=metas(t.get("meta")), com=t.get("comments") or [])

    def err(e):
        return dict(id=0, code=str(e.get("code", "")), name=e.get("name", ""), msg=e.get("message", ""), http=str(e.get("httpStatus", "")))

    def method(m):
        return dict(name=m.get("name", ""), ann=[[k, a.get("annotationType", ""), a.get("value", "")] for k, a in (m.get("annotations") or {}).items()],
                    com=m.get("comments") or [], suc=bool(m.get("succinct")), sin=bool(m.get("streamInput")), sout=bool(m.get("streamOutput")),
                    ins=[arg(a) for a in m.get("inputs") or []], outs=[arg(a) for a in m.get("outputs") or []], errs=m.get("errors") or [])

    def svc(s):
        return dict(id=0, name=s.get("name", ""), com=s.get("comments") or [], methods=[method(m) for m in s.get("methods") or []])
    return dict(bad=False, webrpc=v.get("webrpc", ""), name=v.get("name", ""), version=v.get("version", ""), basepath=v.get("basepath", ""),
                types=[typ(t) for t in v.get("types") or []], errors=[err(e) for e in v.get("errors") or []], services=[svc(s) for s in v.get("services") or []])


class Num(str):
    """a number, as it is written"""


def loads(t):
    return json.loads(t, parse_int=Num, parse_float=Num)


def content(t):
    """what a text the target wrote says"""
    void = dict(kind="", text="")
    if t is None:
        return void
    if MARK in t:
        i = t.index(MARK) + len(MARK)
        try:
            v, n = json.JSONDecoder(parse_int=Num, parse_float=Num).raw_decode(t[i:])
            s = raw(loads(v["json"]))
        except (ValueError, AttributeError, TypeError):
            return dict(kind="garbled", text=t[:200])
        wrap = {"": "plain", "package p\n\n// \n": "go"}.get(t[:i - len(MARK)] + t[i + n:], "other")
        return dict(kind="vars", text="", wrap=wrap, gen=v["gen"], S=s, hash=v["hash"], hashok=hashlib.sha1(v["json"].encode()).hexdigest() == v["hash"],
                    opts=[[k, x] for k, x in sorted(v["opts"].items())], header=v["header"], target=v["target"], command=v["command"], version=v["version"],
                    errors=[[str(e["code"]), e["name"], e["message"], str(e["httpStatus"])] for e in v["errors"]],
                    codegen=[v["codegen"], v["codegenName"], v["codegenVersion"]], names=[v["protocol"], v["name"], v["schemaVersion"]])
    try:
        v = loads(t)
        if isinstance(v, dict):
            return dict(kind="json", text="", S=raw(v))
    except ValueError:
        pass
    return dict(kind="text", text=t if len(t) < 1000 else "")


def summary(t):
    """the report webrpc-gen prints once a file is written"""
    v = dict(re.findall(r"^ ([a-z][a-z -]*?) *: (.*)$", t, re.M))
    age = v.get("target cache age")
    a = re.match(r"(?:(\d+)h)?(?:(\d+)m)?(\d+)s", age or "")
    secs = sum(int(n or 0) * k for n, k in zip(a.groups(), (3600, 60, 1))) if a else 0
    return dict(version=v.get("webrpc-gen version", ""), target=v.get("target", ""), schema=v.get("schema file", ""), out=v.get("output file", ""),
                cache="none" if age is None else "refreshed" if age.startswith("now") else ("failed" if "(failed to refresh:" in age else "kept"),
                hours=secs // 3600, format="format error" in v)


# ------------------------------------------------------------------ running

def snapshot(d):
    r = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            with open(q, "rb") as fh:
                r[os.path.relpath(q, d)] = fh.read()
    return r


def one(exe, top, c, timeout):
    d, tmp = os.path.join(top, "d"), os.path.join(top, "tmp")
    for x in (d, tmp):
        os.makedirs(x)
    for f in c["files"]:
        p = os.path.join(d, f["p"])
        if f["p"].endswith("/"):
            os.makedirs(p, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fh:
            fh.write(template(f["tmpl"], f["label"]).encode() if f.get("tmpl") else base64.b64decode(f["b"]))
    for k in c["cache"]:
        p = os.path.join(tmp, "webrpc-cache", "%d-%s" % (fnv32a(k["target"]), k["target"].split("/")[-1]))
        os.makedirs(p)
        for n, t in (("main.go.tmpl", template(k["tmpl"], k["label"])), (".webrpc-gen-info", k["info"]),
                     (".webrpc-gen-timestamp", str(int(time.time()) - (600 if k["fresh"] else 7200)))):
            with open(os.path.join(p, n), "w") as fh:
                fh.write(t)
    cwd = os.path.join(d, c["cwd"])
    os.makedirs(cwd, exist_ok=True)
    env = {k: v for k, v in core.goenv().items() if k.startswith("GO") or k == "PATH"}
    env.update(HOME=top, TMPDIR=tmp, GOCACHE=tmp, HTTP_PROXY="http://127.0.0.1:1", HTTPS_PROXY="http://127.0.0.1:1")
    if c["env"]["has"]:
        env["WEBRPC_SCHEMA_VERSION"] = c["env"]["val"]
    before = snapshot(d)
    if c.get("again"):      # what an earlier run wrote is in the way of this one: as long as what it will write, or longer
        try:
            subprocess.run([exe] + [a.replace("{dir}", d) for a in c["args"]], cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                           timeout=timeout, preexec_fn=core._limit)
        except subprocess.TimeoutExpired:
            pass
        for k, v in snapshot(d).items():
            if k not in before or (before[k] != v and k.endswith("old.txt")):
                with open(os.path.join(d, k), "wb") as fh:
                    fh.write((b"y" if set(v) <= set(b"x") else b"x") * max(1, len(v)) + (b"\nxx" * 99 if c["again"] == "long" else b""))
        before = snapshot(d)
    void = dict(st="cli", both=False, pos=[], chain=[], s={}, ops=[], leak=0, msg="", subs=[])
    try:
        p = subprocess.run([exe] + [a.replace("{dir}", d) for a in c["args"]], cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, preexec_fn=core._limit)
    except subprocess.TimeoutExpired:
        return dict(void, st="hang")
    dec = lambda b: b.decode("utf-8", "replace").replace(d, "/D")
    out, err = dec(p.stdout), dec(p.stderr)
    if p.returncode < 0 or re.search(r"^goroutine \d+ \[", err, re.M):
        return dict(void, st="crash", msg=err[-1500:])
    after = snapshot(d)
    changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
    obs = dict(rc=p.returncode, stdout="", summary=summary(""), changed=["D/" + k for k in changed], out=content(None), file=content(None), err=content(None))
    if out == "webrpc-gen %s\n" % VERSION:
        obs["stdout"] = "version"
    elif out.startswith("=====") and "webrpc generated summary" in out:
        obs["stdout"] = "summary"
        obs["summary"] = summary(out)
    elif out:
        obs["out"] = content(out[:-1] if out.endswith("\n") else out + "<no newline>")
        obs["stdout"] = obs["out"]["kind"] or "empty"
    if len(changed) == 1 and changed[0] in after:
        obs["file"] = content(dec(after[changed[0]]))
    if "@@HELP\n" in err:
        obs["err"] = dict(kind="help", text="")
    else:
        _, ok, u = err.partition("\nTarget generator usage:\n")
        if u and not u.startswith("failed to render -help: "):
            obs["err"] = content(u[:-1])
    return dict(void, cli=obs, msg=err[-600:])


def run(exe, work, cases, timeout=20, workers=core.CPUS):
    results = [None] * len(cases)
    it = iter(range(len(cases)))
    lock = threading.Lock()
    errs = []

    def go():
        while not errs:
            with lock:
                i = next(it, None)
                top = work.path("cli")
            if i is None:
                return
            try:
                results[i] = one(exe, top, cases[i], timeout)
            except Exception as e:      # noqa
                errs.append(e)
            finally:
                shutil.rmtree(top, ignore_errors=True)
    ts = [threading.Thread(target=go) for _ in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    return results


def event(c, o):
    fs = []
    for f in c["files"]:
        b = b"" if f["p"].endswith("/") or f.get("tmpl") else base64.b64decode(f["b"])
        fs.append(dict(path="D/" + f["p"], chars=core.go_chars(b) if f["p"].endswith("ridl") else [], raw=f.get("raw", core.NORAW), tmpl=f.get("tmpl", ""), label=f.get("label", "")))
    cwd = "/D/" + c["cwd"] if c["cwd"] else "/D"
    return dict(kind="cli", files=fs, cwd=cwd, args=[a.replace("{dir}", "/D") for a in c["args"]], env=c["env"], exe="webrpc-gen", version=VERSION,
                embedded=embedded(), cache=c["cache"], root="", raw={}, ops=[], obs=o.get("cli", {}))
