"""Building the harness, running cases on the real code, checking the logged
events with TLC."""
import base64
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/"
CPUS = min(8, os.cpu_count() or 4)


class Infra(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e.update(PATH="/opt/veriftools/go1.25.14/bin:" + e["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off",
             GOMODCACHE="/root/go/pkg/mod", GOFLAGS="-mod=mod", GOWORK="off")
    e.setdefault("HOME", "/root")
    for f in ("GOROOT",):
        e.pop(f, None)
    return e


class Work:
    """a scratch directory, removed at the end"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-")
        self.n = 0

    def path(self, name):
        self.n += 1
        return os.path.join(self.dir, "%d-%s" % (self.n, name))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def build(work, name="verifharness", src="harness", race=False, gen=False, tmpl=False, suite=False):
    """compile a harness (an overlay package of the webrpc module) from the current tree; tmpl: one that can also run templates"""
    if gen:
        import cli
        return cli.build(work)
    if suite:
        import suite as st
        return st.build(work)
    repl = {}
    for f in os.listdir(os.path.join(VERIF, src)):
        if f.endswith(".go"):
            repl[os.path.join(REPO, name, f)] = os.path.join(VERIF, src, f)
    if src == "streamharness":
        repl[os.path.join(REPO, name, "proto", "chat.gen.go")] = os.path.join(REPO, "_examples/webrpc-streaming/proto/chat.gen.go")
    ov = work.path("overlay.json")
    with open(ov, "w") as fh:
        json.dump({"Replace": repl}, fh)
    # go.mod and go.sum of the tree, copied so that nothing is written to the tree
    mod = work.path("go.mod")
    shutil.copy(os.path.join(REPO, "go.mod"), mod)
    shutil.copy(os.path.join(REPO, "go.sum"), mod[:-4] + ".sum")
    if tmpl:
        import cli
        cli.standins(mod)
    out = work.path(name + ("-race" if race else ""))
    cmd = ["go", "build", "-modfile", mod, "-overlay", ov, "-o", out] + (["-race"] if race else []) + (["-tags", "verifgen"] if tmpl else []) + ["./" + name]
    p = subprocess.run(cmd, cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Infra("harness does not build:\n" + p.stdout)
    return out


# ------------------------------------------------------------ running cases

def b64(s):
    if isinstance(s, str):
        s = s.encode("utf-8", "surrogatepass")
    return base64.b64encode(s).decode()


def unb64(s):
    return base64.b64decode(s)


def go_chars(b):
    """the characters Go sees in a byte string"""
    if isinstance(b, str):
        b = b.encode("utf-8", "surrogatepass")
    out, i = [], 0
    while i < len(b):
        c = b[i]
        n = 1 if c < 0x80 else 2 if 0xc2 <= c <= 0xdf else 3 if 0xe0 <= c <= 0xef else 4 if 0xf0 <= c <= 0xf4 else 0
        try:
            if n == 0:
                raise ValueError
            out.append(b[i:i + n].decode("utf-8"))
            if i + n > len(b):
                raise ValueError
            i += n
        except (UnicodeDecodeError, ValueError):
            if n and len(b) < i + n and len(out) and False:
                pass
            out.append("\ufffd")
            i += 1
    return out


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _worker(exe, work, cases, ids, results, timeout, env):
    """run the cases with these ids; a crash or a hang is charged to the case at which it happened"""
    if exe.endswith("-race"):
        env = dict(env or os.environ, GORACE="halt_on_error=1 exitcode=66")
    inp, outp = work.path("cases"), work.path("out")
    with open(inp, "w") as f:
        for i in ids:
            f.write(json.dumps(cases[i]) + "\n")
    open(outp, "w").close()
    start = hangs = crashes = 0
    while start < len(ids):
        if hangs >= 2 or crashes >= 60:
            # enough to report; the rest is taken as not run
            with open(outp, "a") as f:
                for i in ids[start:]:
                    f.write(json.dumps(dict(id=cases[i]["id"], st="skip", both=False, pos=[], chain=[], s={}, ops=[], leak=0, msg="", subs=[])) + "\n")
            break
        err = work.path("err")
        with open(err, "w") as ef:
            p = subprocess.run([exe, "-in", inp, "-out", outp, "-from", str(start), "-timeout", str(timeout)], stdout=subprocess.DEVNULL,
                               stderr=ef, cwd=work.dir, env=env, preexec_fn=None if exe.endswith("-race") else _limit)
        with open(outp) as f:
            lines = f.read().split("\n")[:-1]
        done = len(lines)
        if p.returncode == 0 and done == len(ids):
            break
        with open(err, errors="replace") as f:
            log = f.read()
        m = re.findall(r"^case (\d+)$", log, re.M)
        at = int(m[-1]) if m else None
        if at is None or at != done or at >= len(ids):
            raise Infra("harness failed (exit %d): %s" % (p.returncode, log[-2000:]))
        st = "hang" if p.returncode == 99 else "crash"
        hangs += st == "hang"
        crashes += st == "crash"
        msg = log[log.rfind("case %d\n" % at):][:1500]
        with open(outp, "a") as f:
            f.write(json.dumps(dict(id=cases[ids[at]]["id"], st=st, both=False, pos=[], chain=[], s={}, ops=[], leak=0, msg=msg, subs=[])) + "\n")
        start = at + 1
    with open(outp) as f:
        for i, l in zip(ids, f):
            results[i] = json.loads(l)
    os.unlink(inp)
    os.unlink(outp)


def run_cases(exe, work, cases, timeout=20, workers=CPUS, env=None):
    for i, c in enumerate(cases):
        c["id"] = i
    if cases and cases[0]["kind"] == "cli":
        import cli
        return cli.run(exe, work, cases, timeout=timeout, workers=workers)
    if cases and cases[0]["kind"] == "cache":
        import cache
        return cache.run(exe, work, cases, timeout=timeout, workers=workers)
    if cases and cases[0]["kind"] == "suite":
        import suite
        return suite.run(exe, work, cases, timeout=timeout, workers=workers)
    results = [None] * len(cases)
    errs = []

    def go(ids):
        try:
            _worker(exe, work, cases, ids, results, timeout, env)
        except Exception as e:      # noqa
            errs.append(e)
    n = max(1, min(workers, len(cases)))
    ts = [threading.Thread(target=go, args=(list(range(k, len(cases), n)),)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    if any(r is None for r in results):
        raise Infra("harness lost a case")
    return results


# -------------------------------------------------------------------- TLC

def tlc(work, module, cfg=None, env=None, args=(), heap="8g", timeout=3000, workers=CPUS):
    meta = work.path("meta")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss512m", "-Xmx" + heap, "-Djava.io.tmpdir=" + work.dir, "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-cp",
           TLA + "tla2tools.jar:" + TLA + "CommunityModules-deps.jar", "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
           "-workers", str(workers), "-config", cfg or module + ".cfg"] + list(args) + [module + ".tla"]
    out = work.path("tlc.out")
    with open(out, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=e)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -1
    shutil.rmtree(meta, ignore_errors=True)
    with open(out, errors="replace") as f:
        txt = f.read()
    return rc, txt


def tlc_lines(txt, tag):
    """what PrintT(tag \\o " " \\o ...) printed"""
    for l in txt.split("\n"):
        if l.startswith('"' + tag + " "):
            yield json.loads(l, strict=False)[len(tag) + 1:]


def tlc_stats(txt):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


NORAW = dict(bad=True)


def event(case, o):
    """the event TLC reads: the abstract input and what was observed"""
    if case["kind"] == "cli":
        import cli
        return cli.event(case, o)
    if case["kind"] == "cache":
        import cache
        return cache.event(case, o)
    if case["kind"] == "suite":
        import suite
        return suite.event(case, o)
    if case["kind"] == "rpc":
        import rpc
        return rpc.event(case, o)
    if case["kind"] == "stream":
        import stream
        return stream.event(case, o)
    if case["kind"] in ("tmpl", "walk"):
        import tmpl
        return tmpl.event(case, o)
    if case["kind"] == "hist":
        void = dict(st="", pos=[], chain=[], s={}, ops=[])
        return dict(kind="hist", docs=[event(d, void) for d in case["subs"]],
                    steps=[dict(w=s["w"], doc=s["doc"], op=event_op(s["op"])) for s in case["steps"]],
                    obs=[{k: x[k] for k in ("st", "pos", "chain", "s", "op", "text", "same")} for x in o["subs"]])
    e = dict(kind=case["kind"], files=[], root="", raw={}, ops=case.get("ops", []), obs=dict(st=o["st"], pos=o["pos"], chain=o["chain"], s=o["s"], ops=[brief_op(x) for x in o["ops"]]))
    if case["kind"] == "ridl":
        e["files"] = [dict(path=f["p"], chars=go_chars(base64.b64decode(f["b"]))) for f in case["files"]]
        e["root"] = case["root"]
    if case["kind"] == "file":
        e["files"] = [dict(path="D/" + f["p"], chars=go_chars(base64.b64decode(f["b"])), raw=f.get("raw", NORAW)) for f in case["files"] if not f["p"].endswith("/")]
        e["root"] = case["root"].replace("{dir}", "/D")
        e["cwd"] = "/D/" + case["cwd"]
    if case["kind"] == "json":
        e["raw"] = case["raw"]
    e["ops"] = [event_op(p) for p in e["ops"]]
    return e


def brief_op(x):
    """an exported text can be told from others by its digest"""
    if isinstance(x, dict) and "hash" in x:
        return dict(x, text=hashlib.sha1(x.get("text", "").encode()).hexdigest(), hashtext=x.get("hashtext", ""))
    return x


def event_op(p):
    return dict(op=p.get("op", ""), names=p.get("names", []), anns=p.get("anns", []), exprs=p.get("exprs", []))


def validate(work, events, verbose=False, heap="8g"):
    """check every event against the specification; returns the list of sets of differing aspects"""
    tr = work.path("trace.ndjson")
    with open(tr, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    rc, txt = tlc(work, "Trace", env={"VERIF_TRACE": tr, "VERIF_VERBOSE": "1" if verbose else "0"}, heap=heap)
    os.unlink(tr)
    diffs = [None] * len(events)
    for l in tlc_lines(txt, "EV"):
        i, d = l.split(" ", 1)
        diffs[int(i) - 1] = set(json.loads(d))
    if any(d is None for d in diffs) or rc != 0:
        bad = [i for i, d in enumerate(diffs) if d is None]
        raise Infra("TLC did not judge %d of %d events (first %s), exit %d:\n%s" % (len(bad), len(events), bad[:3], rc, txt[-3000:]))
    exp = [l for l in tlc_lines(txt, "EXP")] if verbose else None
    return diffs, tlc_stats(txt), exp
