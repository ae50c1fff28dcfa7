"""Shared machinery: building the harness, running it, running TLC."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

TLA_DIRS = ["/opt/veriftools/tla"]


class Infra(Exception):
    """The machinery itself could not run (never reported as a violation)."""


def goenv():
    env = dict(os.environ)
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GONOSUMDB="*", GOFLAGS_EXTRA="")
    env.setdefault("HOME", "/root")
    return env


def scratch(prefix="zzverif-"):
    return tempfile.mkdtemp(prefix=prefix)


# the recorders are built apart, so that a change of one internal interface
# does not take the others along
GROUPS = {"walk": ["main.go", "walk.go", "setup.go", "company.go"], "hooks": ["main.go", "hooks.go"], "notify": ["main.go", "notify.go"],
          "bus": ["main.go", "bus.go"], "coll": ["main.go", "coll.go"], "chain": ["main.go", "chain.go"],
          "persist": ["main.go", "persist.go"]}


def build_harness(out_dir, race=False, group="walk"):
    """Compile a group of harness/*.go inside the agenor module through an overlay."""
    hd = os.path.join(VERIF, "harness")
    replace = {}
    for f in GROUPS[group]:
        replace[os.path.join(REPO, "internal", "zzverif", f)] = os.path.join(hd, f)
    # keep go.mod / go.sum of the repository untouched
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, f), os.path.join(out_dir, f))
    ov = os.path.join(out_dir, "overlay.json")
    with open(ov, "w") as fh:
        json.dump({"Replace": replace}, fh)
    exe = os.path.join(out_dir, group + ("-race" if race else ""))
    cmd = ["go", "build", "-overlay", ov, "-modfile", os.path.join(out_dir, "go.mod"),
           "-buildvcs=false", "-o", exe]
    if race:
        cmd.append("-race")
    cmd.append("./internal/zzverif")
    p = subprocess.run(cmd, cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Infra("harness build failed:\n" + p.stdout[-4000:])
    return exe


ENOUGH = 4


def limit_memory():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def run_harness(exe, scenarios, workers=6, env=None, timeout=300):
    """Run all scenarios; returns {id: [events]}.  A process that dies or hangs
    is restarted after the scenario that killed it (recorded as such); when this
    keeps happening, or time runs out, the remaining scenarios are left out."""
    import concurrent.futures as cf
    pre = None if exe.endswith("-race") else limit_memory
    chunks = [scenarios[i::workers] for i in range(workers)]
    res = {}

    def work(chunk):
        out = {}
        pos = bad = 0
        deadline = time.time() + timeout
        while pos < len(chunk) and bad < ENOUGH:
            data = "".join(json.dumps(s) + "\n" for s in chunk[pos:])
            try:
                p = subprocess.run([exe], input=data.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   timeout=max(5, deadline - time.time()), env=env or dict(os.environ), preexec_fn=pre)
                so, se, rc = p.stdout, p.stderr, p.returncode
            except subprocess.TimeoutExpired as e:
                so, se, rc = e.stdout or b"", b"timeout", -9
            n = 0
            for line in so.decode("utf-8", "replace").split("\n"):
                if not line:
                    continue
                try:
                    t = json.loads(line)
                except ValueError:
                    break
                out[t["id"]] = t["ev"]
                n += 1
            pos += n
            bad += rc == 9
            late = rc == -9 and se == b"timeout"
            if late and time.time() >= deadline and n > 0:
                break                                         # slow, rather than stuck
            if rc == 3:
                raise Infra("harness error: " + se.decode()[-2000:])
            if pos < len(chunk) and rc != 9:
                if rc == 0 and n == 0:
                    raise Infra("harness produced nothing: " + se.decode()[-2000:])
                # died inside scenario chunk[pos]
                msg = se.decode("utf-8", "replace")
                out[chunk[pos]["id"]] = [{"e": "died", "msg": msg[:3000]}]
                pos += 1
                bad += 1
            if time.time() > deadline:
                break
        return out

    with cf.ThreadPoolExecutor(workers) as ex:
        for out in ex.map(work, [c for c in chunks if c]):
            res.update(out)
    if not res and scenarios:
        raise Infra("harness ran out of time")
    return res


def tla_jar():
    for d in TLA_DIRS:
        j = os.path.join(d, "tla2tools.jar")
        if os.path.exists(j):
            cp = j
            for f in sorted(os.listdir(d)):
                if f.endswith(".jar") and f != "tla2tools.jar":
                    cp += ":" + os.path.join(d, f)
            return cp
    raise Infra("tla2tools.jar not found")


def tlc(module, cfg_text, work, env=None, workers=1, timeout=600, mem="3g", extra=()):
    """Run TLC on spec/<module>.tla with the given configuration text.
    Returns dict(out, rc, states, distinct, ok)."""
    run = tempfile.mkdtemp(prefix="tlc-", dir=work)
    cfg = os.path.join(run, module + ".cfg")
    with open(cfg, "w") as fh:
        fh.write(cfg_text)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + mem, "-Xss64m", "-Dfile.encoding=UTF-8",
           "-DTLA-Library=" + SPEC, "-cp", tla_jar(), "tlc2.TLC", "-metadir", os.path.join(run, "meta"),
           "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=run, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out, rc = p.stdout.decode("utf-8", "replace"), p.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = (ex.stdout or b"").decode("utf-8", "replace") + "\nTLC TIMEOUT", -9
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    r = {"out": out, "rc": rc, "states": int(m[-1][0]) if m else 0, "distinct": int(m[-1][1]) if m else 0,
         "ok": "Model checking completed. No error has been found." in out or
               ("Finished in" in out and "Error:" not in out)}
    m = re.findall(r"The depth of the complete state graph search is (\d+)", out)
    r["depth"] = int(m[-1]) if m else 0
    shutil.rmtree(run, ignore_errors=True)
    return r


def ndjson(path, rows):
    with open(path, "w") as fh:
        for r in rows:
            fh.write(json.dumps(r) + "\n")


def evidence(prop, tier, level, coverage, wall, assumptions=(), violations=0):
    os.makedirs(EVID, exist_ok=True)
    doc = {"property": prop, "tier": tier, "seed": SEED, "level": level, "coverage": coverage,
           "wall_s": round(wall, 2), "assumptions": list(assumptions), "violations": int(violations)}
    with open(os.path.join(EVID, prop + ".json"), "w") as fh:
        json.dump(doc, fh, indent=1, sort_keys=True)
        fh.write("\n")
