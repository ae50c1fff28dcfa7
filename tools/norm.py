"""Translates harness scenarios and recorded events into the records that the
TLA+ modules read.  Pure renaming: paths become node numbers, names become
code sequences, missing fields get defaults."""

import os

NOFILTER = {"type": "none", "pat": [], "match": [], "scope": [], "neg": False, "ina": "undefined",
            "dir": [], "hasx": False, "dirx": [], "specs": [], "txt": ""}
TYPES = ["none", "globex", "regex", "glob", "custom", "poly"]
SCOPES = ["tree", "top", "leaf", "intermediate", "file", "directory"]
SUBS = {"1": 1, "2": 2, "3": 3, "4": 4}


def codes(s):
    return [ord(c) for c in s]


def tfilter(f, child=False):
    if not f:
        return dict(NOFILTER)
    r = dict(NOFILTER)
    r.update(type=f["type"], pat=f.get("tok", []), match=[codes(x) for x in f.get("match", [])], scope=f.get("scope") or [],
             neg=bool(f.get("negate")), ina=f.get("ina", "undefined"), txt=f.get("pattern", ""))
    if f["type"] == "globex":
        r.update(dir=f["dirt"], hasx=f["hasx"], dirx=f["dirx"], specs=f["specs"])
    if f["type"] == "poly":
        r.update(file=tfilter(f["file"]), dir=tfilter(f["dir"]))
    return r


def jfilter(j, pre="filter", pat="pattern"):
    """a filter definition as found in a session file"""
    r = {"type": "none", "txt": "", "scope": [], "neg": False, "ina": "undefined"}
    if not j:
        return r
    bits = j.get("filter-scope", 0)
    r.update(type=TYPES[j[pre + "-type"]], txt=j[pat], neg=j["negate"],
             scope=["all"] if bits == 0xFFFFFFFF else [n for i, n in enumerate(SCOPES) if bits & (1 << i)],
             ina=["undefined", "true", "false"][j.get("if-not-applicable", 0)])
    if j.get("Poly"):
        r.update(file=jfilter(j["Poly"]["File"]), dir=jfilter(j["Poly"]["Directory"]))
    return r


def joptions(jo):
    """the options found in a session file"""
    b, f, h, s = jo["Behaviours"], jo["Filter"] or {}, jo["Hibernate"], jo["Sampling"]
    return {"depth": b["Cascade"]["Depth"], "norec": b["Cascade"]["NoRecurse"], "cs": b["Sort"]["IsCaseSensitive"],
            "ff": b["Sort"]["SortFilesFirst"], "keep": b["SubPath"]["KeepTrailingSep"], "now": jo["Concurrency"]["no-of-workers"],
            "node": jfilter(f.get("Node")), "child": jfilter(f.get("Child"), "child-filter", "child-pattern"),
            "wake": jfilter(h["WakeAt"]), "sleep": jfilter(h["SleepAt"]), "iw": h["Behaviour"]["hibernate-inclusive-wake"],
            "is": h["Behaviour"]["hibernate-inclusive-sleep"], "stype": ["", "slice", "filter", "custom"][s["sample-type"]],
            "sfiles": s["NoOf"]["no-of-files"], "sdirs": s["NoOf"]["no-of-directories"], "rev": s["in-reverse"]}


def listing(sc):
    """children of each node in the order the file system reports them"""
    kids = {n["id"]: [] for n in sc["nodes"]}
    for n in sc["nodes"]:
        if n["parent"]:
            kids[n["parent"]].append(n)
    perm = sc.get("perm") or []
    for k in kids:
        kids[k].sort(key=lambda n: n["name"].encode())
        if perm:
            kids[k].sort(key=lambda n: perm[n["id"] - 1] if n["id"] - 1 < len(perm) else 0)
    return kids


def acts(n, script):
    a = [""] * n
    for s in script or []:
        a[s["at"] - 1] = s["act"]
    return a


def scenario(sc, tree):
    nodes = sc["nodes"]
    n = len(nodes)
    o = sc.get("opt") or {}
    kids = listing(sc)
    skip = {s["at"]: s for s in sc.get("skip") or []}
    hib = sc.get("hib") or {}
    smp = sc.get("sampling") or {}
    rf = set(sc.get("readfail") or [])
    vague = set(sc.get("infofail") or [])
    cut = tree.rfind("/")
    return {
        "n": n, "par": [x["parent"] for x in nodes], "dir": [bool(x["dir"]) for x in nodes],
        "name": [codes(x["name"]) for x in nodes], "str": [x["name"] for x in nodes],
        "root": tree, "rootdir": tree[:cut + 1], "base": "" if tree == "." else tree.rstrip("/") + "/",
        "lst": [[k["id"] for k in kids[x["id"]]] for x in nodes],
        "readfail": [x["id"] in rf for x in nodes], "statfail": bool(sc.get("statfail")), "vague": [x["id"] in vague for x in nodes],
        "sub": sc["sub"],
        "opt": {"depth": o.get("depth", 0), "norec": bool(o.get("norecurse")), "ff": bool(o.get("filesfirst")),
                "cs": bool(o.get("casesens") or o.get("casehook")), "hook": o.get("sorthook", "") or "", "nosep": bool(o.get("nosep")), "subhook": o.get("subhook", "") or "",
                "now": o.get("now", 0)},
        "relative": sc.get("fs") != "os",
        "filter": tfilter(sc.get("filter")), "child": tfilter(sc.get("child")),
        "samp": {"type": smp.get("type", "") or "", "rev": bool(smp.get("rev")), "files": smp.get("files", 0), "dirs": smp.get("dirs", 0),
                 "filter": tfilter(smp.get("filter"))},
        "hib": {"wake": tfilter(hib.get("wake")), "sleep": tfilter(hib.get("sleep")),
                "inclwake": not hib.get("exclwake", False), "inclsleep": bool(hib.get("inclsleep"))},
        "acts": [acts(n, sc.get("script"))] + [acts(n, r.get("script")) for r in sc.get("resume") or []],
        "strats": [r["strategy"] for r in sc.get("resume") or []],
        "skipon": bool(sc.get("skipon")), "ans": [skip.get(x["id"], {}).get("ans", "") for x in nodes],
        "anserr": [bool(skip.get(x["id"], {}).get("err")) for x in nodes],
        "fault": sc.get("fault", "") or "", "panic": sc.get("panic", "") or "",
        "silent": sc.get("silent") or [], "workers": workers(sc), "conc": sc.get("entry", "walk") in CONC,
        "output": bool(o.get("output")), "handlers": max(1, sc.get("handlers", 1)),
        "sink": bool(sc.get("sink")), "cancel": bool(sc.get("cancel")), "inp": inputs(sc), "outsize": o.get("outsize", 0),
    }


def alternatives(sc, tree):
    """the requests of the sessions that take up the navigation, if any of them differs:
    what is not said anew is as it was saved, hooks are not saved"""
    first = scenario(sc, tree)
    cur, out = dict(sc), []
    for r in sc.get("resume") or []:
        o, new = dict(cur.get("opt") or {}), r.get("opt") or {}
        for k in ("sorthook", "subhook"):
            o[k] = new.get(k, "")
        for k in ("depth", "norecurse", "nosep", "now"):
            if new.get(k):
                o[k] = new[k]
        if new.get("filesfirst") or new.get("casesens"):
            for k in ("filesfirst", "casesens"):
                o[k] = new.get(k, False)
        cur = dict(cur, opt=o)
        if r.get("filter") or r.get("child"):
            cur["filter"], cur["child"] = r.get("filter"), r.get("child")
        out.append(scenario(cur, tree))
    return out if any(x != first for x in out) else []


CONC = {"run", "hare", "hydra-run", "goldfish-run"}


def workers(sc):
    o = sc.get("opt") or {}
    # without an explicit number there is one worker per CPU
    return o.get("now") if o.get("now") and not o.get("cpu") else len(os.sched_getaffinity(0))


def inputs(sc):
    """the jobs that can wait for the pool; as many as there are workers by default"""
    i = (sc.get("opt") or {}).get("input", 0)
    return i or workers(sc)


def events(sc, evs):
    """-> (tree, list of normalised events) or raises ValueError"""
    tree = ""
    for e in evs:
        if e["e"] == "cfg":
            tree = e["tree"]
            break
    by = {x["id"]: x for x in sc["nodes"]}
    path = {}

    def full(i):
        x = by[i]
        if x["parent"] == 0:
            return tree
        up = full(x["parent"])
        return x["name"] if up == "." else up + "/" + x["name"]
    for i in by:
        path[full(i)] = i
    kidname = {}
    for x in sc["nodes"]:
        kidname[(x["parent"], x["name"])] = x["id"]
    out = []
    saved = 0
    resumes = iter(sc.get("resume") or [])
    for e in evs:
        e = dict(e)
        k = e["e"]
        if k == "cfg":
            continue
        if "p" in e:
            e["n"] = path.get(e["p"], 0)
        if k in ("invoke", "start", "recall"):
            e["ch"] = [kidname.get((e["n"], c), 0) if not c.endswith("/") else 0 for c in e["ch"]]
        if k == "ask":
            for f in ("ct", "cd", "cf"):
                e[f] = [kidname.get((e["n"], c), 0) for c in e[f]]
        if k == "fault":
            e["root"] = e.get("n") == 1
        if k == "result":
            e["noresult"] = bool(e.get("noresult"))
            e.setdefault("m", {})
            e.setdefault("done", False)
            e.setdefault("timeok", False)
            e.setdefault("to", "")
            e.setdefault("named", False)
            for f in ("choices", "sinks"):
                e.setdefault(f, [])
            for f in ("early", "misses"):
                e.setdefault(f, 0)
        if k == "end":
            e.setdefault("m", {})
        if k == "saved":
            saved = e.get("n", 0)
            try:
                e["opts"] = joptions(e.pop("jo"))
                raw = e.pop("raw")
                e["fi"], e["di"] = raw["1"]["Counter"], raw["3"]["Counter"]
                e["sub"] = SUBS[e["sub"]]
                e["ok"] = True
            except (KeyError, TypeError, IndexError) as x:
                e = {"e": "saved", "n": saved, "ok": False, "why": repr(x)}
        if k == "resume":
            r = next(resumes, {})
            e["from"] = r.get("at") or saved
            e["strategy"] = r.get("strategy", "")
        out.append(e)
    return tree, out
