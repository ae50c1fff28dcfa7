#!/usr/bin/env python3
"""triage.py <mutants.ndjson> <out.ndjson> [workers] [file substring]

For each mutant: build the recorders with it, record the scenarios of every
check, compare with what the unchanged code records, and let TLC judge a few of
the recordings that differ.  Verdicts: nobuild, same, caught, allowed (differs,
yet the specification allows it).  A development tool; no check uses it."""
import collections, concurrent.futures as cf, json, os, random, re, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import lib, registry, units, profiles

REPO = "/repo"
WALK = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16", "C22"]
N_WALK, N_UNIT = 160, 250
VOLATILE = {"k", "text", "stack", "msg", "to"}


def build(out, mutated=None):
    files = sorted({f for g in lib.GROUPS.values() for f in g})
    rep = {os.path.join(REPO, "internal/zzverif", f): os.path.join(lib.VERIF, "harness", f) for f in files}
    if mutated:
        rep[mutated[0]] = mutated[1]
    ov = out + ".json"
    json.dump({"Replace": rep}, open(ov, "w"))
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, f), os.path.join(os.path.dirname(out), f))
    p = subprocess.run(["go", "build", "-overlay", ov, "-modfile", os.path.join(os.path.dirname(out), "go.mod"), "-buildvcs=false", "-o", out,
                        "./internal/zzverif"], cwd=REPO, env=dict(lib.goenv(), GOMAXPROCS="3"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode == 0, p.stdout


def checks(work):
    out = []
    for p in WALK:
        c = registry.TraceCheck(p, "quick", work, 1)
        c.n = N_WALK
        out.append((c, c.scenarios()))
    for p in ("C15", "C17", "C18", "C19", "C20", "C21"):
        c = registry.get(p, "quick", work, 1)
        for part in (c.parts if isinstance(c, registry.Many) else [c]):
            part.n = N_UNIT
            s = part.scenarios()
            out.append((part, random.Random(1).sample(s, min(len(s), 2 * N_UNIT))))
    return out


def canon(ev):
    def tidy(e):
        return {k: v for k, v in e.items() if k not in VOLATILE}
    q = [json.dumps(tidy(e), sort_keys=True) for e in ev if e.get("e") != "returned"]
    if any(e.get("e") == "start" for e in ev):
        q.sort()
    # scratch directories have random names
    return re.sub(r"zzverif-[a-z]+-\d+|zzv[a-z-]*\d{6,}", "TMP", "\n".join(q))


def record(exe, scs, timeout=100):
    """{id: events}; a missing one died or hung"""
    got = {}

    def go(chunk):
        pos = 0
        tries = 0
        while pos < len(chunk) and tries < 4:
            tries += 1
            data = "".join(json.dumps(s) + "\n" for s in chunk[pos:]).encode()
            try:
                p = subprocess.run([exe], input=data, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
                so = p.stdout
            except subprocess.TimeoutExpired as e:
                so = e.stdout or b""
                tries = 9
            n = 0
            for line in so.decode("utf-8", "replace").split("\n"):
                try:
                    t = json.loads(line)
                except ValueError:
                    continue
                got[t["id"]] = t["ev"]
                n += 1
            pos += n
            if pos < len(chunk):
                got[chunk[pos]["id"]] = [{"e": "died"}]
                pos += 1
        # (the rest was given up on)
    parts = [scs[i::2] for i in range(2)]
    with cf.ThreadPoolExecutor(2) as ex:
        list(ex.map(go, parts))
    return got


def main():
    muts = [json.loads(l) for l in open(sys.argv[1])]
    outf = sys.argv[2]
    workers = int(sys.argv[3]) if len(sys.argv) > 3 else 3
    only = sys.argv[4] if len(sys.argv) > 4 else ""
    seen, todo = set(), []
    done = set()
    if os.path.exists(outf):
        for l in open(outf):
            m = json.loads(l)
            done.add((m["file"], m["off"], m["len"], m["new"]))
    rng = random.Random(7)
    for m in muts:
        k = (m["file"], m["off"], m["len"], m["new"])
        if k in seen or k in done or only not in m["file"]:
            continue
        seen.add(k)
        if m["file"].endswith("comparison.go") and rng.random() > 0.12:
            continue
        todo.append(m)
    random.Random(3).shuffle(todo)
    work = tempfile.mkdtemp(prefix="zztriage-")
    try:
        cs = checks(work)
        scs, where = [], {}
        for ci, (c, ss) in enumerate(cs):
            for s in ss:
                s["id"] = len(scs) + 1
                s["timeout"] = 4000
                scs.append(s)
                where[s["id"]] = ci
        by = {s["id"]: s for s in scs}
        ok, o = build(os.path.join(work, "base"))
        assert ok, o
        a, b, b2, b3 = (record(os.path.join(work, "base"), scs) for _ in range(4))
        base = {i: canon(a[i]) for i in a if all(i in q and canon(a[i]) == canon(q[i]) for q in (b, b2, b3))}
        use = [s for s in scs if s["id"] in base]
        print("scenarios", len(scs), "stable", len(use), "mutants", len(todo), flush=True)
        out = open(outf, "a")

        def one(m):
            d = tempfile.mkdtemp(dir=work)
            try:
                src = open(m["file"], "rb").read()
                new = src[:m["off"]] + m["new"].encode() + src[m["off"] + m["len"]:]
                mf = os.path.join(d, os.path.basename(m["file"]))
                open(mf, "wb").write(new)
                exe = os.path.join(d, "x")
                ok, o = build(exe, (m["file"], mf))
                if not ok and re.search(r"declared and not used|imported and not used", o):
                    fixed = new
                    for v in set(re.findall(r'"([^"]+)" imported and not used', o)):
                        fixed = re.sub(rb'\n\s*(\w+ )?"' + re.escape(v).encode() + rb'"', b"\n", fixed)
                    if fixed != new:
                        open(mf, "wb").write(fixed)
                        ok, o = build(exe, (m["file"], mf))
                if not ok:
                    return dict(m, verdict="nobuild", why=o[-200:])
                got = record(exe, use)
                diff = [i for i in base if i not in got or canon(got[i]) != base[i]]
                if not diff:
                    return dict(m, verdict="same")
                dead = [i for i in diff if i not in got or any(e["e"] in ("died", "hang", "runaway") for e in got[i])]
                if dead:
                    return dict(m, verdict="caught", by="crash", n=len(diff))
                per = collections.defaultdict(list)
                for i in diff:
                    per[where[i]].append(i)
                info = {}
                for ci, q in sorted(per.items(), key=lambda x: -len(x[1])):
                    c = cs[ci][0]
                    q = random.Random(1).sample(q, min(len(q), 25))
                    try:
                        rows = [(i, c.row(by[i], got[i])) for i in q]
                        acc, _, _ = registry.validate(c.module, c.consts, rows, d, procs=1, timeout=300)
                    except lib.Infra as e:
                        return dict(m, verdict="infra", why=str(e)[-300:], by=c.prop)
                    if len(acc) < len(q):
                        return dict(m, verdict="caught", by=c.prop, n=len(diff))
                    info[c.prop] = len(per[ci])
                ex = diff[0]
                x, y = base[ex].split("\n"), canon(got[ex]).split("\n")
                k = next((k for k in range(min(len(x), len(y))) if x[k] != y[k]), min(len(x), len(y)))
                return dict(m, verdict="allowed", props=info, was=(x + ["-"])[k][:300], now=(y + ["-"])[k][:300])
            except Exception as e:
                return dict(m, verdict="infra", why=repr(e)[-300:])
            finally:
                shutil.rmtree(d, ignore_errors=True)

        cnt = collections.Counter()
        with cf.ThreadPoolExecutor(workers) as ex:
            for k, r in enumerate(ex.map(one, todo)):
                out.write(json.dumps(r) + "\n")
                out.flush()
                cnt[r["verdict"]] += 1
                if k % 50 == 49:
                    print(k + 1, dict(cnt), flush=True)
        print(dict(cnt))
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
