#!/usr/bin/env python3
"""run.py check Cxx | replay FILE | setup"""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import check  # noqa
import core   # noqa
import gen    # noqa
import props  # noqa


def run(prop, tier, seed):
    ctx = check.Ctx(prop, tier, seed)
    try:
        props.CHECKS[prop](ctx, gen.Rng("%s/%d" % (prop, seed)))
        ctx.confirm()
        ctx.evidence(props.LEVEL.get(prop, "model_checking"), props.ASSUME)
        print("%s: %d cases on the code, %d judged by the specification, %d states, %d violations, %.0f s"
              % (prop, ctx.evals, ctx.traces, ctx.states, ctx.reported, check.time.time() - ctx.t0))
        return 1 if ctx.reported else 0
    except Exception:
        traceback.print_exc()
        return 1 if ctx.reported else 2
    finally:
        ctx.work.close()


def replay(path):
    rec = json.load(open(path))
    ctx = check.Ctx(rec["property"], "quick", 1)
    try:
        c = rec["case"]
        exe = ctx.exe(**rec.get("build", {}))
        cs = c["cases"] if c["kind"] == "after" else [c]
        res = core.run_cases(exe, ctx.work, cs, workers=1)[-1:]
        d = ctx.judge(cs[-1:], res)[0]
        print(json.dumps(check.brief(c), indent=1, ensure_ascii=False))
        print("observed:", json.dumps({k: v for k, v in res[0].items() if k in ("st", "pos", "chain", "msg", "s", "ops", "ev")}, ensure_ascii=False))
        print("required:", json.dumps(rec.get("required"), ensure_ascii=False))
        print("differs in:", sorted(d) or "nothing")
        return 1 if d else 0
    finally:
        ctx.work.close()


def main(a):
    if a[:1] == ["check"]:
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        return run(a[1], tier, seed)
    if a[:1] == ["replay"]:
        return replay(a[1])
    if a[:1] == ["setup"]:
        w = core.Work()
        try:
            core.build(w)
        finally:
            w.close()
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
