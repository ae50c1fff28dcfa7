"""Scenario profiles: what each property's random scenarios look like.  Every
function takes an rng and returns one harness scenario."""
import copy

import gen

R = ["walk"] * 12 + ["tortoise", "hydra", "goldfish"]
ACTS = ["err", "werr", "skipdir", "skipdir", "skipdir", "skipall"]


def size(rng):
    r = rng.random()
    return (rng.randrange(1, 6) if r < 0.25 else rng.randrange(5, 15) if r < 0.9 else rng.randrange(15, 45) if r < 0.993
            else rng.choice([70, 110, 140, 180, 260]) + rng.randrange(20))


def plain(rng, **kw):
    s = gen.base(rng, size(rng), **kw)
    for k in ("depth", "norecurse"):
        s["opt"].pop(k, None)
    return s


def some(rng, s, k, pool=None):
    ids = pool if pool is not None else [n["id"] for n in s["nodes"]]
    return rng.sample(ids, min(len(ids), k)) if ids else []


def script(rng, s, k=None, acts=ACTS):
    k = k if k is not None else rng.choice([1, 1, 1, 2, 3])
    s["script"] = [dict(at=i, act=rng.choice(acts)) for i in some(rng, s, k)]


def silent(rng, s, keep=()):
    ev = [e for e in ("begin", "end", "descend", "ascend", "wake", "sleep") if e not in keep]
    r = rng.random()
    if r < 0.25:
        s["silent"] = rng.sample(ev, rng.randrange(1, len(ev) + 1))


def filt(rng, s, p=1.0, **kw):
    if rng.random() < p:
        s["filter"] = gen.node_filter(rng, s["nodes"], **kw)


def child(rng, s, p=1.0):
    if rng.random() < p:
        names = [n["name"] for n in s["nodes"] if not n["dir"]] or ["a"]
        s["child"] = gen.simple_filter(rng, names, scoped=False)


def C01(rng):
    s = plain(rng, fileroot=rng.random() < 0.07)
    s["entry"] = rng.choice(R)
    silent(rng, s)
    if rng.random() < 0.1:
        s["fs"] = "os"
    if rng.random() < 0.1:
        s["repeat"] = 2
    if rng.random() < 0.2:
        s["handlers"] = 2
    vague(rng, s, 0.1)
    later(rng, s)
    return s


def C02(rng):
    s = gen.base(rng, size(rng), style=rng.choice(["mixed", "mixed", "any", "odd", "plain", "files"]), shape=rng.choice(["wide", "any", "comb"]))
    s["perm"] = gen.perm(rng, s["nodes"]) if rng.random() < 0.8 else []
    if rng.random() < 0.2:
        filt(rng, s)
    if s["sub"] == "dirfiles" and rng.random() < 0.4 and not s.get("filter"):
        child(rng, s)
    if rng.random() < 0.15:
        s["sampling"] = gen.sampling(rng, s["nodes"], ("slice",))
    if rng.random() < 0.15:
        script(rng, s)
    if rng.random() < 0.1:
        s["fs"] = "os"
        s["perm"] = []
    if rng.random() < 0.1:
        s["repeat"] = 2
    later(rng, s)
    return s


def C03(rng):
    s = gen.base(rng, size(rng), shape=rng.choice(["deep", "comb", "any"]), dirbias=0.65, fileroot=rng.random() < 0.03)
    o = s["opt"]
    if not o.get("norecurse"):
        o["depth"] = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 7, 20]) if rng.random() < 0.9 else 0
    filt(rng, s, 0.25)
    if rng.random() < 0.2 and not s.get("filter"):
        s["sampling"] = gen.sampling(rng, s["nodes"], ("slice",))
    if s["sub"] == "dirfiles" and not s.get("filter") and rng.random() < 0.3:
        child(rng, s)
    if rng.random() < 0.15:
        s["skipon"] = True
    if rng.random() < 0.1:
        s["repeat"] = 2
    later(rng, s)
    return s


def C04(rng):
    s = gen.base(rng, size(rng), style=rng.choice(["odd", "odd", "any", "files"]), fileroot=rng.random() < 0.04,
                 rootname=rng.choice(gen.ROOTS + gen.BASES["odd"]))
    s["root"] = rng.choice(["", "p", "Ä/b", "日本/語", "..x/y", "a/b/c/d"])
    filt(rng, s, 0.2)
    if rng.random() < 0.2:
        s["opt"]["subhook"] = rng.choice(["files", "dirs", "both"])
    if s["sub"] == "dirfiles" and rng.random() < 0.4 and not s.get("filter"):
        child(rng, s)
    if rng.random() < 0.2:
        script(rng, s, acts=["skipdir"])
    if rng.random() < 0.15:
        s["fs"] = "os"
    r = rng.random()
    if r < 0.08 and s["nodes"][0]["dir"]:
        s["root"], s["fs"] = "", "mem"
        s["nodes"][0]["name"] = "."
    elif r < 0.2:
        s["treeform"] = rng.choice(["slash", "dot", "dbl"])
        s["fs"] = "os" if s["nodes"][0]["dir"] else s["fs"]
    vague(rng, s, 0.15)
    later(rng, s)
    return s


def C05(rng):
    s = gen.base(rng, size(rng), fileroot=rng.random() < 0.04)
    if rng.random() < 0.6:
        script(rng, s)
    filt(rng, s, 0.2)
    if rng.random() < 0.25:
        faults(rng, s)
    if rng.random() < 0.2 and not s.get("filter"):
        s["hib"] = gen.hibernation(rng, s["nodes"])
    s["handlers"] = rng.choice([1, 1, 2, 3])
    silent(rng, s)
    if rng.random() < 0.1:
        s["repeat"] = 2
    later(rng, s)
    return s


def C06(rng):
    s = gen.base(rng, size(rng), fileroot=rng.random() < 0.04)
    filt(rng, s, 0.55)
    if rng.random() < 0.45 and s["sub"] in ("dirfiles", "directories", "universal"):
        child(rng, s)
    if rng.random() < 0.4:
        script(rng, s, acts=["err", "skipdir", "skipall"])
    if rng.random() < 0.2 and not s.get("filter") and not s.get("child"):
        s["sampling"] = gen.sampling(rng, s["nodes"], ("slice",))
    if rng.random() < 0.2:
        s["repeat"] = rng.choice([2, 3])
    silent(rng, s)
    s["entry"] = rng.choice(R)
    later(rng, s)
    return s


def C07(rng):
    s = gen.base(rng, size(rng), fileroot=rng.random() < 0.03)
    script(rng, s)
    filt(rng, s, 0.15)
    if s["sub"] == "dirfiles" and rng.random() < 0.3:
        s.pop("filter", None)
        child(rng, s)
    if rng.random() < 0.1:
        s["sampling"] = gen.sampling(rng, s["nodes"], ("slice",)) if not s.get("filter") and not s.get("child") else None
    s["entry"] = rng.choice(R)
    silent(rng, s)
    later(rng, s)
    return s


def C08(rng):
    s = gen.base(rng, size(rng), style=rng.choice(["files", "files", "any", "plain", "mixed", "odd"]), fileroot=rng.random() < 0.03)
    filt(rng, s)
    if rng.random() < 0.7:
        for k in ("depth", "norecurse"):
            s["opt"].pop(k, None)
    if s["sub"] in ("dirfiles", "universal", "directories") and rng.random() < 0.2:
        child(rng, s)
    if rng.random() < 0.1:
        script(rng, s, acts=["skipdir", "err"])
    later(rng, s)
    return s


def C09(rng):
    s = gen.base(rng, size(rng), sub="dirfiles" if rng.random() < 0.92 else rng.choice(["directories", "universal"]), dirbias=0.4)
    if rng.random() < 0.5 or s["sub"] != "dirfiles":
        child(rng, s)
        filt(rng, s, 0.2)
    if rng.random() < 0.15:
        script(rng, s, acts=["skipdir", "skipdir", "err"])
    if rng.random() < 0.1 and not s.get("filter") and not s.get("child"):
        s["sampling"] = gen.sampling(rng, s["nodes"], ("slice",))
    later(rng, s)
    return s


def C10(rng):
    s = gen.base(rng, size(rng), fileroot=rng.random() < 0.02)
    s["hib"] = gen.hibernation(rng, s["nodes"])
    filt(rng, s, 0.2, kinds=("glob", "regex", "globex", "poly"))
    if s["sub"] == "dirfiles" and rng.random() < 0.3 and not s.get("filter"):
        child(rng, s)
    if rng.random() < 0.1:
        s["repeat"] = 2
    return s


def C11(rng):
    s = gen.base(rng, size(rng), shape=rng.choice(["wide", "any", "comb"]))
    s["sampling"] = gen.sampling(rng, s["nodes"])
    if rng.random() < 0.6:
        for k in ("depth", "norecurse"):
            s["opt"].pop(k, None)
    if not s["sampling"].get("filter"):
        filt(rng, s, 0.1)
        if s["sub"] == "dirfiles" and not s.get("filter"):
            child(rng, s, 0.3)
    later(rng, s)
    return s


def vague(rng, s, p):
    """entries whose details can't be had"""
    ids = [n["id"] for n in s["nodes"] if n["parent"]]
    if ids and rng.random() < p:
        s["infofail"] = some(rng, s, rng.choice([1, 1, 2, 3]), ids)


def faults(rng, s):
    r = rng.random()
    ids = [n["id"] for n in s["nodes"]]
    dirs = [n["id"] for n in s["nodes"] if n["dir"]]
    if r < 0.2:
        s["statfail"] = True
        s["fault"] = rng.choice(["", "nil", "swap"])
        return
    s["readfail"] = some(rng, s, rng.choice([1, 1, 2, 3]), dirs)
    if rng.random() < 0.8:
        s["skipon"] = True
        pool = s["readfail"] if rng.random() < 0.7 else (dirs if s["sub"] != "universal" else ids)
        s["skip"] = []
        for i in some(rng, s, rng.choice([0, 1, 1, 2]), pool):
            a = rng.choice(["dir", "all", "none"])
            s["skip"].append(dict(at=i, ans=a, err=a == "all" and rng.random() < 0.5))


def C12(rng):
    s = gen.base(rng, size(rng), fileroot=rng.random() < 0.03, dirbias=0.65)
    faults(rng, s)
    vague(rng, s, 0.2)
    filt(rng, s, 0.15)
    if rng.random() < 0.15 and s.get("readfail"):
        script(rng, s, acts=["skipdir", "err"])
    if rng.random() < 0.2 and s.get("readfail") and not s.get("filter"):
        s["sampling"] = gen.sampling(rng, s["nodes"], ("slice", "slice", "filter"))
    s["entry"] = rng.choice(R)
    return s


def clean(s):
    """keep to what a session file records"""
    if s["opt"].pop("casehook", None):
        s["opt"]["casesens"] = True
    return s


def anew(rng, s, kinds):
    """what the sessions that take up a navigation are asked for on their own"""
    for r in s["resume"]:
        o = r.get("opt") or {}
        for k in ("sorthook", "subhook"):
            # hooks are not saved
            if s["opt"].get(k) and rng.random() < 0.7:
                o[k] = s["opt"][k]
        if rng.random() < 0.3:
            for k in rng.sample(kinds, min(len(kinds), rng.choice([1, 1, 2]))):
                if k == "sort":
                    o["filesfirst"], o["casesens"] = rng.random() < 0.5, rng.random() < 0.5
                elif k == "hook":
                    o["sorthook"] = "reverse"
                elif k == "nosep":
                    o["nosep"] = True
                elif k == "depth":
                    o["depth"] = rng.randrange(1, 6)
                elif k == "norecurse":
                    o["norecurse"] = rng.random() < 0.5
                elif k == "filter":
                    r["filter"] = gen.node_filter(rng, s["nodes"], ("glob", "regex"))
                elif k == "child" and s["sub"] != "files":
                    t = {"nodes": s["nodes"]}
                    child(rng, t)
                    r["child"] = t["child"]
        if o:
            r["opt"] = o


def panics(rng, s, k=1):
    """make the callback panic at one node (and do ordinary things at others)"""
    sc = []
    if rng.random() < 0.25:
        script(rng, s, k=1, acts=["skipdir", "skipdir", "err", "skipall"] if rng.random() < 0.3 else ["skipdir"])
        sc = s["script"]
    at = rng.choice(s["nodes"])["id"] if rng.random() < 0.93 else 1
    s["script"] = [x for x in sc if x["at"] != at] + [dict(at=at, act=rng.choice(["panic", "panic", "panicerr"]))]


def C13(rng):
    s = clean(gen.base(rng, size(rng), fileroot=rng.random() < 0.04))
    panics(rng, s)
    s["panic"] = rng.choice(["", "", "", "", "save", "custom", "fail", "badfs"])
    r = rng.random()
    if r < 0.35:
        filt(rng, s)
    elif r < 0.45:
        s["sampling"] = gen.sampling(rng, s["nodes"], ("slice",))
    if rng.random() < 0.3 and s["sub"] in ("dirfiles", "universal", "directories"):
        child(rng, s)
    if rng.random() < 0.4:
        s["opt"]["now"] = rng.randrange(1, 9)
    if rng.random() < 0.1:
        s["fs"] = "os"
    silent(rng, s)
    s["entry"] = rng.choice(R)
    if (rng.random() < 0.2 and not s.get("sampling") and not s["panic"] and s["entry"] != "goldfish"
            and (s.get("filter") or {}).get("type") != "custom"):
        s["resume"] = [dict(strategy="fastward", at=0, script=[dict(at=rng.choice(s["nodes"])["id"], act="panic")])
                       for _ in range(rng.choice([1, 1, 2, 3]))]
    vague(rng, s, 0.12)
    if s.get("infofail") and rng.random() < 0.6:
        s["script"][-1]["at"] = rng.choice(s["infofail"])
    return s


def resumes(rng, s, n):
    ids = [x["id"] for x in s["nodes"]]
    s["resume"] = []
    for i in range(n):
        r = dict(strategy=rng.choice(["fastward", "spawn", "spawn"]), at=0, script=[])
        if i + 1 < n:
            r["script"] = [dict(at=rng.choice(ids), act="panic")]
        elif rng.random() < 0.2:
            r["script"] = [dict(at=i, act=rng.choice(["skipdir", "skipdir", "err", "skipall"])) for i in some(rng, s, rng.choice([1, 2]))]
        s["resume"].append(r)


def C14(rng):
    # a tree that holds others of its own name, and the same names all over
    same = dict(style="dup", rootname=rng.choice(["a", "b"])) if rng.random() < 0.3 else {}
    s = clean(gen.base(rng, size(rng), fileroot=rng.random() < 0.02, **same))
    if same and rng.random() < 0.7:
        s["root"] = ""
    panics(rng, s)
    r = rng.random()
    if r < 0.3:
        filt(rng, s, kinds=("glob", "regex"))
    elif r < 0.4 and s["sub"] != "files":
        child(rng, s)
    elif r < 0.5:
        s["sampling"] = gen.sampling(rng, s["nodes"], ("slice",))
    resumes(rng, s, rng.choice([1, 1, 1, 1, 2, 3]))
    vague(rng, s, 0.1)
    if rng.random() < 0.25:
        s["resume"][0]["at"] = rng.choice(s["nodes"])["id"]
    if rng.random() < 0.07 and s["nodes"][0]["dir"]:
        s["root"], s["fs"] = "", "mem"
        s["nodes"][0]["name"] = "."
    elif rng.random() < 0.1:
        s["fs"] = "os"
    if s["nodes"][0]["name"] != "." and s["nodes"][0]["dir"] and rng.random() < 0.08:
        s["treeform"] = rng.choice(["slash", "dot", "dbl"])
        s["fs"] = "os"
    return s


CONCS = ["run", "run", "run", "hare", "hydra-run", "goldfish-run"]


def pooled(rng, s):
    o = s["opt"]
    if rng.random() < 0.9:
        o["now"] = rng.choice([1, 1, 2, 2, 3, 4, 5, 8, 16])
    elif rng.random() < 0.5:
        o["cpu"] = True
    if rng.random() < 0.4:
        o["input"] = rng.choice([1, 1, 2, 3, 10])
    d = rng.choice([0, 0, 50, 200, 1000])
    if d:
        s["delay"] = [rng.choice([0, rng.randrange(d + 1), d]) for _ in s["nodes"]]


def C16(rng):
    s = gen.base(rng, size(rng) if rng.random() < 0.97 else rng.randrange(60, 160), fileroot=rng.random() < 0.02)
    s["entry"] = rng.choice(CONCS)
    pooled(rng, s)
    filt(rng, s, 0.2)
    if s["sub"] == "dirfiles" and rng.random() < 0.2 and not s.get("filter"):
        child(rng, s)
    if rng.random() < 0.1 and not s.get("filter") and not s.get("child"):
        s["sampling"] = gen.sampling(rng, s["nodes"], ("slice",))
    if rng.random() < 0.4:
        s["opt"]["output"] = True
        s["opt"]["outsize"] = rng.choice([0, 1, 2, 10])
    r = rng.random()
    if r < 0.08:
        s["repeat"] = 2
    elif r < 0.16 and not s.get("sampling") and (s.get("filter") or {}).get("type") in (None, "glob", "regex"):
        clean(s)
        s["resume"] = [dict(strategy=rng.choice(["fastward", "spawn"]), at=0, script=[], entry=rng.choice(["run", "hare", "hydra-run"]),
                            opt=dict(now=s["opt"].get("now", 0)))]
        s["entry"] = "walk"
        s["opt"].pop("output", None)
        s["script"] = [dict(at=rng.choice(s["nodes"])["id"], act="panic")]
    if not s.get("resume") and rng.random() < 0.35:
        script(rng, s, k=rng.choice([1, 2, 5, 50]))
    if not s.get("resume") and not s.get("repeat") and not s["opt"].get("output") and rng.random() < 0.15:
        if rng.random() < 0.5:
            # more to do than the pool can hold
            b = gen.base(rng, rng.randrange(16, 40))
            s["nodes"], s["perm"], s["sub"] = b["nodes"], b["perm"], rng.choice(["universal", "files", "directories"])
            for k in ("filter", "child", "sampling", "script", "delay"):
                s.pop(k, None)
            s["opt"].pop("depth", None)
            s["opt"].pop("norecurse", None)
            s["opt"].update(now=rng.choice([1, 2, 3]), input=rng.choice([0, 1, 2]))
            s["delay"] = [rng.choice([0, 100, 300]) for _ in s["nodes"]]
        s["cancel"] = rng.choice([-1] + [n["id"] for n in s["nodes"]] * 2)
    silent(rng, s)
    return s


def C22(rng):
    s = gen.base(rng, min(30, size(rng)), fileroot=rng.random() < 0.03)
    r = rng.random()
    if r < 0.3:
        filt(rng, s)
    elif r < 0.4:
        child(rng, s)
    elif r < 0.5:
        s["sampling"] = gen.sampling(rng, s["nodes"], ("slice",))
    seq = ["walk", "walk", "tortoise", "hydra", "goldfish"]
    if rng.random() < 0.25:
        script(rng, s, acts=["skipdir", "skipdir", "err", "skipall"])
        s["entries"] = ["walk"] + [rng.choice(seq) for _ in range(rng.choice([1, 2, 3]))]
    else:
        s["entries"] = [rng.choice(seq + CONCS) for _ in range(rng.choice([2, 2, 3, 4]))]
        pooled(rng, s)
    if rng.random() < 0.5:
        s["vias"] = [rng.choice(["", "if", "iff", "ifelse"]) for _ in s["entries"]]
    if rng.random() < 0.25:
        # through ready made options, new ones or those of an earlier navigation;
        # they carry no handlers
        s["vias"] = [rng.choice(["", "o", "o", "reuse", "reuse"]) for _ in s["entries"]]
        s["silent"] = ["begin", "end", "descend", "ascend", "wake", "sleep"]
    if rng.random() < 0.4:
        b = gen.base(rng, rng.randrange(1, 9))
        b["entry"] = rng.choice(seq + CONCS)
        pooled(rng, b)
        b.pop("delay", None)
        filt(rng, b, 0.3)
        if rng.random() < 0.4 and b["entry"] in seq:
            script(rng, b, acts=["err", "skipall", "skipdir", "panic"])
        elif rng.random() < 0.3:
            b["hib"] = gen.hibernation(rng, b["nodes"])
        if rng.random() < 0.2:
            b["statfail"] = True
        if rng.random() < 0.2:
            b["sampling"] = gen.sampling(rng, b["nodes"], ("slice",))
            b.pop("filter", None)
        s["between"] = b
    if rng.random() < 0.1:
        s["fs"] = "os"
    if not s.get("silent"):
        silent(rng, s)
    return s


def C24(rng):
    """everything at once"""
    s = gen.base(rng, size(rng), fileroot=rng.random() < 0.03)
    p = rng.choice([0.2, 0.5, 0.8])
    if rng.random() < p:
        s["hib"] = gen.hibernation(rng, s["nodes"])
    if rng.random() < p:
        # a custom filter would take the place of the conditions
        filt(rng, s, kinds=("glob", "regex", "globex", "poly") if s.get("hib") else ("glob", "regex", "globex", "custom", "poly"))
    if rng.random() < p and s["sub"] != "files":
        child(rng, s)
    if rng.random() < p:
        s["sampling"] = gen.sampling(rng, s["nodes"], ("slice",) if s.get("filter") or s.get("child") else ("slice", "filter", "slicefilter", "custom"))
    if rng.random() < p:
        faults(rng, s)
    if rng.random() < p:
        script(rng, s, acts=ACTS + ["panic"] if rng.random() < 0.3 else ACTS)
    if rng.random() < 0.1:
        s["repeat"] = 2
    if rng.random() < 0.1:
        s["handlers"] = 2
    if rng.random() < 0.15:
        silent(rng, s)
    vague(rng, s, p / 4)
    s["entry"] = rng.choice(R)
    if rng.random() < 0.3:
        sessions(rng, s)
    return s


def sessions(rng, s, at=0.25):
    """the callback panics and the navigation is taken up again, perhaps repeatedly"""
    clean(s)
    if s["entry"] == "goldfish":
        s["entry"] = "walk"
    for k in ("hib", "readfail", "statfail", "fault", "repeat"):
        s.pop(k, None)
    kind = (s.get("filter") or {}).get("type")
    if kind == "custom":
        s.pop("filter")
    if s.get("sampling") and s["sampling"]["type"] != "slice" or (s.get("sampling") or {}).get("filter"):
        s.pop("sampling")
    panics(rng, s)
    resumes(rng, s, rng.choice([1, 1, 1, 2, 3]))
    if kind in ("globex", "poly"):
        # they look at the parent, which the nodes a spawn resume starts from don't have
        for r in s["resume"]:
            r["strategy"] = "fastward"
    if s["entry"] == "walk" and rng.random() < at:
        s["resume"][0]["at"] = rng.choice(s["nodes"])["id"]


def later(rng, s, p=0.12):
    """perhaps the navigation is interrupted and taken up again"""
    if rng.random() < p:
        sessions(rng, s, at=0)


def twist(rng, s):
    """give settings that are replaced by later ones, or give them in another order"""
    if rng.random() < 0.12:
        s["decoy"] = dict(depth=rng.randrange(1, 4), norecurse=rng.random() < 0.5, filesfirst=rng.random() < 0.5,
                          casesens=rng.random() < 0.5, nosep=rng.random() < 0.5, now=rng.randrange(1, 4))
    # a custom sorter and the case sensitive one are alternatives, so are the two ways of
    # giving the hibernation options
    if rng.random() < 0.15 and not s["opt"].get("vianb"):
        s["shuffle"] = rng.randrange(1, 1 << 30)
    return s


def scenario(prop, rng):
    s = twist(rng, globals()[prop](rng))
    # a skip request may be wrapped in another error
    for x in s.get("script", []) + [x for r in s.get("resume", []) for x in r["script"]]:
        if x["act"] in ("skipdir", "skipall") and rng.random() < 0.2:
            x["wrap"] = True
    if s.get("resume") and s.get("kind") != "setup":
        anew(rng, s, {"C14": ["sort", "hook", "nosep", "depth", "norecurse", "filter", "child"],
                      "C24": ["sort", "hook", "nosep", "depth"]}.get(prop, ["sort", "hook", "nosep"]))
    # sessions saved within the same second
    if prop in ("C13", "C14") and rng.random() < 0.25:
        s["still"] = True
    if s.get("fs") == "os" and not any(s.get(k) for k in ("readfail", "statfail", "infofail")) and s.get("panic") != "badfs":
        r = rng.random()
        if r < 0.4:
            s["native"], s["perm"] = True, []
        elif r < 0.6 and not s.get("treeform") and s["nodes"][0]["name"] != "." :
            s["fs"] = "rel"
    if prop in ("C08", "C09", "C24") and (s.get("filter") or s.get("child")) and rng.random() < 0.35:
        s["sink"] = True
    return s


def sibling(rng, m):
    """nearly the same request: what one of its conditions says is different"""
    m = copy.deepcopy(m)
    hib = m.get("hib") or {}
    conds = [f for f in (m.get("filter"), m.get("child"), hib.get("wake"), hib.get("sleep")) if f]
    conds = [g for f in conds for g in ([f["file"], f["dir"]] if f["type"] == "poly" else [f])]
    conds = [f for f in conds if f["type"] in ("glob", "regex", "globex")]
    if not conds:
        return None
    f = rng.choice(conds)
    f["negate"] = not f.get("negate")
    return m


FILTER_FAULTS = ["notype", "badregex", "globexsep", "globexspec", "polynil", "polynested", "polynested2", "polybad", "polybad2",
                 "polynotype", "polycustom", "customnil", "badglob", "badglob", "globexdir", "globexexcl", "globexpat", "polybadglob",
                 "polybadglob2"]
CHILD_FAULTS = ["child-notype", "child-globex", "child-custom", "child-poly", "child-badregex", "child-badglob"]
SAMPLE_FAULTS = ["sample-notype", "sample-poly", "sample-globex", "sample-badregex", "sample-badglob", "sample-customnil", "sample-nofiles", "sample-nodirs"]
FILE_FAULTS = ["file-missing", "file-dir", "file-empty", "file-text", "file-cut", "file-noactive", "file-nojo", "file-type",
               "file-jotype", "file-relative", "file-rrelative", "file-elsewhere"]
BADREGEX = ["(", "[", "a(b", "[z-a]", "*", "a**", "(?P<n", "\\", "x{2,1}", "(?z)", "[[:nope:]]", "\\8"]

BADGLOB = ["[", "a[", "[]", "[^", "[a", "*[b-", "[-z]", "x[]a]", "[^]", "?[a-"]


def setup_fault(rng, mode):
    r = rng.random()
    if r < 0.45:
        w = rng.choice(["node", "node", "wake", "sleep"])
        return w + "-" + rng.choice(FILTER_FAULTS)
    if r < 0.6:
        return rng.choice(CHILD_FAULTS + SAMPLE_FAULTS + ["custom"])
    if r < 0.7:
        return rng.choice(["option", "lateoption"])
    if mode == "prime":
        return rng.choice(["nohandler", "notree", "nosub", "nilfacade", "wrongfacade", "nilforest", "nilT"])
    return rng.choice(["nohandler", "nofrom", "nostrategy", "nilfacade", "wrongfacade", "nilforest", "nilT", "nilR", "absT"] + FILE_FAULTS * 2)


def C17(rng):
    s = gen.base(rng, rng.randrange(2, 12))
    s["kind"] = "setup"
    s["mode"] = rng.choice(["prime", "prime", "resume"])
    s["entry"] = rng.choice(["walk", "walk", "run", "tortoise", "hare", "goldfish"] if s["mode"] == "prime" else
                            ["walk", "walk", "run", "tortoise", "hare"])
    s["strategy"] = rng.choice(["fastward", "spawn"])
    s["bad"] = rng.choice(BADREGEX)
    s["badglob"] = rng.choice(BADGLOB)
    s["at"] = rng.randrange(12)
    s["opt"]["now"] = rng.randrange(1, 4)
    k = rng.choice([0, 1, 1, 1, 1, 1, 2, 2, 3])
    faults = []
    while len(faults) < k:
        f = setup_fault(rng, s["mode"])
        g = f.split("-")[0]
        grp = {"node": "filter", "custom": "filter", "child": "filter", "sample": "filter", "nilT": "forest", "nilR": "forest",
               "absT": "forest", "nilforest": "forest", "nilfacade": "facade", "wrongfacade": "facade", "nofrom": "file"}
        if any(grp.get(x.split("-")[0], x.split("-")[0]) == grp.get(g, g) for x in faults):
            k -= 1
            continue
        faults.append(f)
    # two mismatches make a match
    if "absT" in faults and "file-relative" in faults:
        faults.remove("absT")
    # a custom filter would take the place of the conditions
    if "custom" in faults:
        faults = [f for f in faults if f.split("-")[0] not in ("wake", "sleep")]
    s["faults"] = faults
    if rng.random() < 0.4 and not any(f.split("-")[0] in ("node", "custom", "child", "sample") for f in faults):
        filt(rng, s, 1.0, kinds=("glob", "regex"))
    if rng.random() < 0.3:
        s["then"] = True
    if rng.random() < 0.15 and s["mode"] == "prime":
        s["opt"]["viao"] = True
        s["silent"] = ["begin", "end", "descend", "ascend", "wake", "sleep"]
    return s


# ------------------------------------------------------------------ findings
# Scenarios that fail on the unchanged tree (see known-findings.txt): each is
# run by the check of its property and is identified by its key.
def _small(**kw):
    nodes = [dict(id=1, parent=0, name="root", dir=True), dict(id=2, parent=1, name="a", dir=True), dict(id=3, parent=2, name="f", dir=False),
             dict(id=4, parent=2, name="g", dir=False), dict(id=5, parent=1, name="z", dir=False)]
    s = dict(kind="walk", fs="mem", root="", nodes=nodes, sub="universal", entry="walk", opt={}, perm=[])
    s.update(kw)
    return s


def _poly(file, dir):
    lits = lambda t: [gen.STAR if c == "*" else gen.lit(c) for c in t]
    sub = lambda t: dict(type="glob", pattern=t, scope=[], negate=False, ina="undefined", tok=lits(t))
    return dict(type="poly", pattern="", scope=[], negate=False, ina="undefined", tok=[], file=sub(file), dir=sub(dir))


def known():
    return {
        # the panics of a concurrent run's callbacks end in the worker pool
        "C13": [dict(_small(entry="run", opt=dict(now=1), script=[dict(at=3, act="panic")]), key="concurrent-panic")],
        # the nodes a spawn resume starts from have no parent
        "C14": [dict(_small(sub="files", filter=_poly("*", "a"), script=[dict(at=3, act="panic")],
                            resume=[dict(strategy="spawn", at=0, script=[])]), key="spawn-parentless")],
    }
