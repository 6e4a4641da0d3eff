"""One check run: cases of a property are executed on the real code, the logged
outcomes are judged by TLC against the specification, differences are confirmed
and reported, and what was covered is written as evidence."""
import hashlib
import json
import os
import random
import re
import sys
import time

import core

GENERAL = {"crash", "hang", "leak", "both"}


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.work = core.Work()
        self.states = self.transitions = self.traces = self.evals = 0
        self.nontrivial = set()
        self.samples = []
        self.models = []
        self.sources = {}
        self.t0 = time.time()
        self.exes = {}
        self.found = []
        self.outcomes = {}
        self.reported = 0
        self.runs = {}

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    def exe(self, **kw):
        k = json.dumps(kw, sort_keys=True)
        if k not in self.exes:
            self.exes[k] = core.build(self.work, **kw)
        return self.exes[k]

    def left(self):
        """seconds left before this run should end"""
        return self.scale(240, 2400) - (time.time() - self.t0)

    # ------------------------------------------------------------- models
    def model(self, module, consts=None, invariants=None, timeout=1500, emit=True, heap="8g", props=(), post=None, workers=core.CPUS, sim=None):
        """check a bounded model; returns the cases it emitted"""
        cfg = self.work.path(module + ".cfg")
        base = open(os.path.join(core.SPEC, module + ".cfg")).read()
        for k, v in (consts or {}).items():
            base, n = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?%s\s*=\s*).*$" % k, lambda m: m.group(1) + str(v), base)
            if n != 1:
                raise core.Infra("constant %s of %s" % (k, module))
        open(cfg, "w").write(base)
        t = time.time()
        rc, txt = core.tlc(self.work, module, cfg=cfg, timeout=timeout, heap=heap, workers=workers, args=sim or ())
        gen, dist = core.tlc_stats(txt)
        if rc != 0 or not dist:
            log = "\n".join(l for l in txt.split("\n") if not l.startswith(('"CASE', "Parsing", "Semantic")))
            raise core.Infra("model %s: TLC exit %d\n%s" % (module, rc, log[-5000:]))
        self.states += dist
        self.transitions += gen
        cases = [json.loads(l) for l in sorted(core.tlc_lines(txt, "CASE"))] if emit else []
        self.models.append(dict(module=module, constants=consts or {}, states=dist, transitions=gen, cases=len(cases), seconds=round(time.time() - t, 1)))
        return cases

    # -------------------------------------------------------- conformance
    def conform(self, source, cases, mask=None, timeout=10, **bk):
        """run, judge, confirm.  mask(tag) tells whether a difference counts for this property"""
        mask = mask or (lambda t: True)
        if sum("hang" in f[3] for f in self.found) > 1:     # enough to report
            return
        exe = self.exe(**bk)
        t = time.time()
        n0 = self.evals
        for lo in range(0, len(cases), 4000):
            part = cases[lo:lo + 4000]
            res = core.run_cases(exe, self.work, part, timeout=timeout)
            diffs = self.judge(part, res)
            for c, o, d in zip(part, res, diffs):
                self.evals += 1
                k = o["st"]
                self.outcomes[k] = self.outcomes.get(k, 0) + 1
                self.nontrivial.add(hashlib.sha1(json.dumps([c.get("files"), c.get("json"), c.get("ops"), c.get("root"), c.get("subs"), c.get("args"), c.get("env"), c.get("cwd"), c.get("cache"), c.get("prog"), c.get("opts"), c.get("steps"), c.get("calls"), c.get("sched"), c.get("cfg"), c.get("answers"), c.get("codes"), c.get("requests"), c.get("upafter")]).encode()).digest()[:8])
                hit = {x for x in d if mask(x)}
                if hit:
                    self.runs[id(c)] = (cases, lo, c["id"])
                    self.found.append((source, c, o, hit, timeout, bk, mask))
            if len(self.found) > 200:
                break
        if cases:
            rnd = random.Random(self.seed)
            for c in rnd.sample(cases, min(2, len(cases))):
                self.samples.append(dict(source=source, case=brief(c)))
        self.sources[source] = dict(cases=self.evals - n0, seconds=round(time.time() - t, 1))

    def judge(self, cases, res):
        """differences per case; the harness outcomes no specification allows are judged first"""
        diffs = [set() for _ in cases]
        ev, ix = [], []
        for i, (c, o) in enumerate(zip(cases, res)):
            if o["leak"] > 0:
                diffs[i].add("leak")
            if o["both"]:
                diffs[i].add("both")
            if o["st"] == "skip":
                continue
            if o["st"] in ("crash", "hang"):
                diffs[i].add(o["st"])
                continue
            if c.get("nojudge"):
                continue
            ev.append(core.event(c, o))
            ix.append(i)
        if ev:
            ds, st, _ = core.validate(self.work, ev)
            self.states += st[1]
            self.transitions += st[0]
            self.traces += len(ev)
            for i, d in zip(ix, ds):
                diffs[i] |= d
        return diffs

    def confirm(self):
        """re-execute the first differing cases of each kind; report those that differ again"""
        kinds = {}
        for f in self.found:
            kinds.setdefault((f[0], tuple(sorted(f[3]))), []).append(f)
        unconfirmed = 0
        for (source, _), fs in sorted(kinds.items(), key=lambda kv: len(kv[1]), reverse=True):
            if self.reported >= 6:
                break
            fs.sort(key=lambda f: len(json.dumps(brief(f[1]))))
            ok = False
            for f in fs[:3]:
                _, c, o, hit, timeout, bk, mask = f
                again = self.rerun(c, hit, timeout, bk, mask)
                if again:
                    c, o, d = self.shrink(c, again[0], again[1], timeout, bk, mask)
                    self.report(source, c, o, d, bk)
                    ok = True
                    break
            if not ok:
                ok = self.history(source, fs[0])
            if not ok:
                unconfirmed += 1
                print("not reproduced: %s %s %s" % (source, sorted(fs[0][3]), json.dumps(brief(fs[0][1]))[:600]))
        if unconfirmed and not self.reported:
            raise core.Infra("%d kinds of differences were not reproduced" % unconfirmed)

    def history(self, source, f):
        """the difference shows only after the cases that came before it in the same process"""
        _, c, o, hit, timeout, bk, mask = f
        cases, lo, i = self.runs[id(c)]
        n = min(core.CPUS, len(cases[lo:lo + 4000]))
        before = cases[lo:lo + 4000][i % n:i + 1:n]

        def again(cs):
            cs = [dict(x) for x in cs]
            res = core.run_cases(self.exe(**bk), self.work, cs, timeout=timeout * 2, workers=1)
            return {x for x in self.judge(cs[-1:], res[-1:])[0] if mask(x)}, res[-1]
        for _ in range(2):
            d, o = again(before)
            if not d:
                return False
        while len(before) > 1:      # a shorter history that shows it, too
            k = len(before) // 2
            for part in (before[k:], before[:k] + before[-1:]):
                if len(part) < len(before) and again(part)[0]:
                    before = part
                    break
            else:
                break
        self.report(source, dict(kind="after", cases=before), o, d | {"after others"}, bk)
        return True

    def rerun(self, c, hit, timeout, bk, mask):
        exe = self.exe(**bk)
        for n in (1, 1, 24):
            cs = [dict(c) for _ in range(n)]
            res = core.run_cases(exe, self.work, cs, timeout=timeout * 2)
            for o, d in zip(res, self.judge(cs, res)):
                d = {x for x in d if mask(x)}
                if d:
                    return o, d
            if "hang" in hit:
                break
        return None

    def shrink(self, c, o, d, timeout, bk, mask):
        """leave out lines of the RIDL texts while the difference stays"""
        if c["kind"] not in ("ridl", "file", "cli", "cache", "rpc", "stream") or d & {"hang"}:
            return c, o, d
        exe = self.exe(**bk)
        for rnd in range(8):
            if time.time() - self.t0 > self.scale(500, 3000):
                break
            cands = []
            for i in range(len(c.get("args") or [])):
                cands.append(dict(c, args=c["args"][:i] + c["args"][i + 1:]))
            if c["kind"] == "cache":
                cands += [dict(c, steps=c["steps"][:i] + c["steps"][i + 1:]) for i in range(len(c["steps"]))]
            if c["kind"] == "rpc":
                for i in range(len(c["calls"]) if len(c["calls"]) > 1 else 0):
                    cands.append(dict(c, calls=c["calls"][:i] + c["calls"][i + 1:], sched=[x - (x > i + 1) for x in c["sched"] if x != i + 1]))
            if c["kind"] == "stream":
                for i in range(len(c["calls"]) if len(c["calls"]) > 1 else 0):
                    cands.append(dict(c, calls=c["calls"][:i] + c["calls"][i + 1:], sched=[dict(x, c=x["c"] - (x["c"] > i + 1)) for x in c["sched"] if x["c"] != i + 1]))
            for fi, f in enumerate(c.get("files") or []):
                if f["p"].endswith("/") or "raw" in f or f.get("tmpl"):
                    if c["kind"] == "cli":
                        cands.append(dict(c, files=[x for j, x in enumerate(c["files"]) if j != fi]))
                    continue
                lines = core.unb64(f["b"]).split(b"\n")
                sizes = {1} if len(lines) < 8 else {1, len(lines) // 2, len(lines) // 4}
                for k in sorted(sizes, reverse=True):
                    for i in range(0, len(lines), max(1, k)):
                        t = b"\n".join(lines[:i] + lines[i + k:])
                        fs = [dict(x) for x in c["files"]]
                        fs[fi]["b"] = core.b64(t)
                        cands.append(dict(c, files=fs))
                if len(c["files"]) > 1:  # noqa
                    cands.append(dict(c, files=[x for j, x in enumerate(c["files"]) if j != fi]))
            for i in range(len(c.get("ops") or [])):
                cands.append(dict(c, ops=c["ops"][:i] + c["ops"][i + 1:]))
            cands = cands[:400]
            if not cands:
                break
            res = core.run_cases(exe, self.work, cands, timeout=timeout)
            if any(x["st"] == "hang" for x in res):
                break
            best = None
            for x, xo, xd in zip(cands, res, self.judge(cands, res)):
                xd = {t for t in xd if mask(t)}
                if xd == d and (best is None or len(json.dumps(x)) < len(json.dumps(best[0]))):
                    best = (x, xo, xd)
            if best is None or len(json.dumps(best[0])) >= len(json.dumps(c)):
                break
            c, o, d = best
        return c, o, d

    def report(self, source, c, o, d, bk):
        os.makedirs(os.path.join(core.VERIF, "replay"), exist_ok=True)
        c = {k: v for k, v in c.items() if k != "id"}
        rec = dict(property=self.prop, source=source, differs=sorted(d), case=c, build=bk, observed={k: v for k, v in o.items() if k != "id"}, seed=self.seed, tier=self.tier)
        try:
            if not (d & {"crash", "hang"}) and not c.get("nojudge") and c["kind"] != "after":
                rec["required"] = json.loads(core.validate(self.work, [core.event(c, o)], verbose=True)[2][0])
        except core.Infra as e:
            rec["required"] = str(e)[:500]
        name = "%s-%s.json" % (self.prop, hashlib.sha1(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:10])
        path = os.path.join(core.VERIF, "replay", name)
        with open(path, "w") as f:
            json.dump(rec, f, indent=1, ensure_ascii=False)
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("  %s: differs in %s" % (source, ", ".join(sorted(d))))
        print("  case: %s" % json.dumps(brief(c), ensure_ascii=False)[:1500])
        if o.get("msg"):
            print("  observed: %s" % o["msg"][:400])
        self.reported += 1

    def fail(self, source, text, rec):
        """a violation found outside conform()"""
        os.makedirs(os.path.join(core.VERIF, "replay"), exist_ok=True)
        path = os.path.join(core.VERIF, "replay", "%s-%s.json" % (self.prop, hashlib.sha1(json.dumps(rec, sort_keys=True, default=str).encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, source=source, text=text, record=rec, seed=self.seed, tier=self.tier), f, indent=1, ensure_ascii=False, default=str)
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("  %s: %s" % (source, text[:1500]))
        self.reported += 1

    def evidence(self, level, assumptions):
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                                evaluations=self.evals, distinct_nontrivial=len(self.nontrivial),
                                rule="a case is one input (files, JSON text, operations) executed on the real code; distinct by content",
                                outcomes=self.outcomes, models=self.models, sources=self.sources, samples=self.samples[:12]),
                  assumptions=assumptions, wall_s=round(time.time() - self.t0, 1), violations=self.reported)
        with open(os.path.join(core.VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)


def brief(c):
    """a case as a reader wants to see it"""
    r = {}
    if c.get("files") and c.get("kind") != "cli":
        r["files"] = {f["p"]: core.unb64(f["b"]).decode("utf-8", "replace") for f in c["files"]}
    if c.get("json"):
        r["json"] = core.unb64(c["json"]).decode("utf-8", "replace")
    if c.get("kind") == "cli":
        r["files"] = {f["p"]: f.get("tmpl") or core.unb64(f["b"]).decode("utf-8", "replace") for f in c["files"]}
        r.update(args=c["args"], env=c["env"]["val"] if c["env"]["has"] else None, cache=c["cache"])
    if c.get("prog"):
        import tmpl
        r.update(program=[" ".join([x["fn"]] + [tmpl.arg(a) for a in x["args"]]) for x in c["prog"]], opts=c["opts"])
    for k in ("root", "cwd", "ops"):
        if c.get(k):
            r[k] = c[k]
    for k in ("kind", "call", "argv", "subs"):
        if k in c and k != "subs":
            r[k] = c[k]
    if c.get("subs"):
        r["subs"] = [brief(x) for x in c["subs"][:3]]
        r["steps"] = [(s["w"], s["doc"] or s["op"]) for s in c.get("steps", [])]
    if c.get("kind") == "cache":
        r["steps"] = [{k: v for k, v in s.items() if v or k == "op"} for s in c["steps"]]
    if c.get("kind") == "suite":
        r.update({k: v for k, v in c.items() if v and k != "id"})
    if c.get("kind") in ("rpc", "stream"):
        r.update(cfg={k: v for k, v in c["cfg"].items() if v}, sched=c["sched"],
                 calls=[{k: v for k, v in q["plan"].items() if v and v != dict(kind="ok", code=0, text="", value="")} for q in c["calls"]])
    if c.get("cases"):
        r["cases"] = [brief(x) for x in c["cases"][-3:]]
    return r
