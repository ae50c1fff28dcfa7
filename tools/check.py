#!/usr/bin/env python3
"""check.py <property> [--thorough] [--replay FILE]

Builds the conformance harness from /repo's working tree, checks the
specification with TLC, records traces of the real code and lets TLC decide
whether the specification allows them."""
import argparse, concurrent.futures as cf, json, os, random, shutil, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
import registry

REPLAYS = os.path.join(lib.VERIF, "replays")


def known():
    out = []
    p = os.path.join(lib.VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:"):
                f = dict(x.split("=", 1) for x in line.split() if "=" in x)
                out.append((f.get("property"), f.get("key"), line))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    if a.seed is not None:
        lib.SEED = a.seed
    tier = "thorough" if a.thorough or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    t0 = time.time()
    work = lib.scratch()
    try:
        chk = registry.get(a.prop, tier, work, a.scale)
        if a.replay:
            res = chk.replay(json.load(open(a.replay)))
        else:
            res = chk.run()
        wall = time.time() - t0
        bad = []
        kf = [k for k in known() if k[0] == a.prop]
        for v in res["violations"]:
            hit = [k for k in kf if v.get("key") and v["key"] == k[1]]
            if hit:
                print(hit[0][2])
                continue
            bad.append(v)
        if not a.replay:
            lib.evidence(a.prop, tier, "model_checking", res["coverage"], wall, res.get("assumptions", ()), len(bad))
        for k, v in enumerate(bad[:5]):
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, "%s-%d.json" % (a.prop, k + 1))
            with open(path, "w") as fh:
                json.dump(v, fh, indent=1, ensure_ascii=False)
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
            print("  " + v.get("why", "")[:600])
        if bad:
            print("%s: %d violation(s) (%.1fs)" % (a.prop, len(bad), wall))
            return 1
        c = res["coverage"]
        print("%s OK: %d traces validated, %d model states, %.1fs" % (
            a.prop, c.get("traces_validated_against_impl", 0), c.get("states", 0), wall))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        rc = main()
    except lib.Infra as e:
        print("ERROR (infrastructure): %s" % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
