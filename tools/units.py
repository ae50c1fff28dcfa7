"""Scenarios for the parts of the system that are driven by sequences of operations."""

HOOK_TAPS = {"sub": ["plain", "plain", "wrap", "prev"], "io": ["plain", "wrap", "wrap", "prev", "fail"],
             "sort": ["asc", "desc", "rev", "rot", "prev-rev", "prev-rot", "prev-desc"]}
HOOK_CHAINS = {"sub": ["append", "append", "replace", "same"], "io": ["append", "append", "replace", "same", "fail"],
               "sort": ["rev", "rot", "desc", "asc"]}


def hook_class(k):
    return {"file": "sub", "dir": "sub", "read": "io", "stat": "io"}.get(k, "sort")


def hooks(rng):
    kinds = rng.choice([["file", "dir", "read", "stat", "sort"], ["file", "dir"], ["read", "stat"], ["sort", "read"], ["sort"], ["stat"], ["dir"]])
    ops, f = [], 200
    nav = rng.random() < 0.5
    insts = [0] if rng.random() < 0.5 else [0, 1]
    for _ in range(rng.randint(2, 14)):
        k, i = rng.choice(kinds), rng.choice(insts)
        x = rng.random()
        if x < 0.25:
            f += 1
            mode = rng.choice([m for m in HOOK_TAPS[hook_class(k)] if not (nav and m == "fail")])
            ops.append({"op": "tap", "i": i, "k": k, "f": f, "mode": mode})
        elif x < 0.6:
            f += 1
            mode = rng.choice([m for m in HOOK_CHAINS[hook_class(k)] if not (nav and m == "fail")])
            ops.append({"op": "chain", "i": i, "k": k, "f": f, "mode": mode})
        elif x < 0.68:
            ops.append({"op": "restore", "i": i, "k": k, "f": 0, "mode": ""})
        elif nav and x < 0.72:
            ops.append({"op": "nav", "i": i, "k": "", "f": 0, "mode": "", "via": rng.choice(["", "options"])})
        else:
            arg = rng.sample(range(1, 9), rng.randint(0, 5)) if k == "sort" else [0] if k in ("read", "stat") and rng.random() < 0.2 else [1]
            ops.append({"op": "invoke", "i": i, "k": k, "f": 0, "mode": "", "arg": arg})
    if nav:
        ops.append({"op": "nav", "i": rng.choice(insts), "k": "", "f": 0, "mode": "", "via": rng.choice(["", "options"])})
    else:
        for k in kinds:
            ops.append({"op": "invoke", "i": rng.choice(insts), "k": k, "f": 0, "mode": "", "arg": [3, 1, 2] if k == "sort" else [1]})
    par, isdir = [], []
    for j in range(rng.randint(0, 7)):
        dirs = [1] + [n + 2 for n in range(len(par)) if isdir[n]]
        par.append(rng.choice(dirs))
        isdir.append(rng.random() < 0.45)
    # every directory has something in it
    for n in range(len(par) + 1):
        if (n == 0 or isdir[n - 1]) and n + 1 not in par:
            par.append(n + 1)
            isdir.append(False)
    for o in ops:
        o.setdefault("arg", [])
        o.setdefault("via", "")
    return {"kind": "hooks", "ops": ops, "par": par, "dir": isdir}


def hooks_from(ops):
    """a behaviour of MCHooks, with every hook invoked after each operation"""
    out = []
    kinds = sorted({o["k"] for o in ops})
    for n, o in enumerate(ops):
        out.append(dict(o, arg=[], via=""))
        for k in kinds:
            out.append({"op": "invoke", "i": 0, "k": k, "f": 0, "mode": "", "arg": [3, 1, 4, 2] if k == "sort" else [1], "via": ""})
    out.append({"op": "invoke", "i": 1, "k": kinds[0], "f": 0, "mode": "", "arg": [2, 1] if kinds[0] == "sort" else [1], "via": ""})
    out.append({"op": "nav", "i": 0, "k": "", "f": 0, "mode": "", "arg": [], "via": ""})
    return {"kind": "hooks", "ops": out, "par": [1, 1, 2, 2], "dir": [True, False, False, False]}


NOTES = ["ascend", "begin", "descend", "end", "wake", "sleep"]


def notes(rng):
    kinds = rng.sample(NOTES, rng.choice([1, 2, 3, 6]))
    insts = [0] if rng.random() < 0.6 else [0, 1]
    f = [0]

    def op(level):
        x, k, i = rng.random(), rng.choice(kinds), rng.choice(insts)
        o = {"i": i, "k": k, "f": 0, "arg": 0, "do": []}
        if x < 0.3:
            f[0] += 1
            o.update(op="on", f=f[0])
            if level < 2 and rng.random() < 0.25:
                o["do"] = [op(level + 1) for _ in range(rng.randint(1, 3))]
        elif x < 0.4:
            o.update(op="mute")
        elif x < 0.52:
            o.update(op="unmute")
        elif x < 0.57:
            o.update(op="muteall", k="")
        elif x < 0.64:
            o.update(op="unmuteall", k="")
        else:
            o.update(op="dispatch", arg=rng.randint(0, 9))
        return o

    first = []
    for _ in range(rng.choice([0, 0, 1, 2, 5])):
        f[0] += 1
        first.append({"op": "on", "i": rng.choice(insts), "k": rng.choice(kinds), "f": f[0], "arg": 0, "do": []})
    ops = [op(0) for _ in range(rng.randint(2, 18))]
    if rng.random() < 0.3:
        # handlers that come and go within a navigation are another matter
        ops = [o for o in ops if not o["do"]]
        ops.insert(rng.randint(0, len(ops)), {"op": "nav", "i": rng.choice(insts), "k": "", "f": 0, "arg": 0, "do": []})
    return {"kind": "notes", "first": first, "ops": ops}


def notes_from(ops):
    kinds = sorted({o["k"] for o in ops if o["k"]}) or ["begin"]
    out = []
    for o in ops:
        out.append(dict(o, do=[]))
        for k in kinds:
            out.append({"op": "dispatch", "i": 0, "k": k, "f": 0, "arg": len(out) % 10, "do": []})
    return {"kind": "notes", "first": [], "ops": out}


MATCHERS = ["", ".*", "^a", "^b", "x$", "^a\\.x$", "a\\.x", "^a$", "\\.", "^[ab]$", "y|^b$", "[", "(", "*"]
TOPICS = ["a", "b", "a.x", "a.y", "b.x", "b.a", "a.b.x"]
SERVICES = ["topic:init.plugins", "topic:intercept.navigator", "topic:navigation.complete", "topic:options.announce",
            "topic:options.before", "topic:options.complete"]


def bus_op(**kw):
    o = {"op": "", "ts": [], "k": "", "m": "", "v": 0, "d": 0, "tx": "", "src": "", "id": "", "at": False, "do": []}
    o.update(kw)
    return o


def bus(rng):
    svc = rng.random() < 0.25
    topics = rng.sample(TOPICS, rng.randint(1, 4)) + (rng.sample(SERVICES, 2) if svc else [])
    matchers = [m for m in MATCHERS if rng.random() < 0.5] or ["^a"]
    if svc:
        # these topics are named like "topic:..."
        matchers = ["", ".*", "^topic:options\\.", "complete$", "\\."] + (["^a", "^[ab]$"] if rng.random() < 0.5 else [])
    keys = ["k%d" % i for i in range(1, rng.randint(2, 6))]
    v = [0]
    reent = rng.random() < 0.5

    def op(level):
        x = rng.random()
        if x < 0.15:
            return bus_op(op="regtopics", ts=[rng.choice(topics) for _ in range(rng.randint(1, 3))])
        if x < 0.22:
            return bus_op(op="deregtopics", ts=[rng.choice(topics) for _ in range(rng.randint(1, 2))])
        if x < 0.5:
            v[0] += 1
            o = bus_op(op="reghandler", k=rng.choice(keys), m=rng.choice(matchers), v=v[0])
            if reent and level < 2 and rng.random() < 0.4:
                o["do"] = [op(level + 1) for _ in range(rng.randint(1, 3))]
            return o
        if x < 0.6:
            return bus_op(op="dereghandler", k=rng.choice(keys))
        if x < 0.68:
            return bus_op(op="query")
        o = bus_op(op=rng.choice(["emit", "emitopts"]), ts=[rng.choice(topics)], d=rng.randint(1, 99))
        if rng.random() < 0.3:
            o["tx"] = "tx%d" % rng.randint(1, 3)
        if rng.random() < 0.3:
            o["src"] = "src%d" % rng.randint(1, 3)
        if o["op"] == "emitopts":
            if rng.random() < 0.3:
                o["id"] = "id%d" % rng.randint(1, 3)
            o["at"] = rng.random() < 0.3
        return o

    ops = []
    if rng.random() < 0.7:
        ops.append(bus_op(op="regtopics", ts=topics))
    ops += [op(0) for _ in range(rng.randint(3, 25))]
    ops.append(bus_op(op="query"))
    return {"kind": "bus", "services": svc, "ops": ops}


def bus_from(ops):
    out = []
    for o in ops:
        out.append(dict(o, do=[]))
        for t in ("a", "a.x"):
            out.append(bus_op(op="emit", ts=[t], d=len(out) + 1))
    out.append(bus_op(op="query"))
    return {"kind": "bus", "services": False, "ops": out}


def coll(rng):
    what = rng.choice(["set", "set", "set", "stack", "stack", "forward", "reverse", "forward-run", "reverse-run"])
    s = {"kind": "coll", "what": what, "type": rng.choice(["int", "string"]), "order": [], "anchor": 0, "ops": []}
    pool = list(range(1, rng.randint(2, 8)))
    xs = lambda n: [rng.choice(pool) for _ in range(rng.randint(0, n))]

    def op(o, **kw):
        d = {"op": o, "x": 0, "xs": [], "i": 0, "stop": 0}
        d.update(kw)
        s["ops"].append(d)

    n = rng.randint(3, 25)
    if what == "set":
        s["order"], s["anchor"] = xs(8), rng.choice(pool + [9])
        for _ in range(n):
            o = rng.choice(["insert", "insert", "insert", "all", "delete", "delete", "contains", "position", "items", "items", "top", "count"])
            op(o, x=rng.choice(pool + [9, 10]), xs=[rng.choice(pool + [9]) for _ in range(rng.randint(0, 4))] if o == "all" else [],
               i=rng.choice([0, 0, 1]))
        op("items")
        op("count")
    elif what == "stack":
        s["order"] = xs(5)
        for _ in range(n):
            op(rng.choice(["push", "push", "push", "pop", "pop", "mustpop", "current", "size", "empty", "content"]), x=rng.choice(pool),
               i=rng.choice([0, 1]))
    else:
        s["order"] = xs(6)
        run = what.endswith("run")
        op("valid")
        started = False
        for _ in range(n):
            o = rng.choice(["start", "next", "next", "next", "valid", "valid", "reset"] + (["runall", "runall"] if run else []))
            if o == "next" and not started:
                o = "start"
            started = started and o != "reset" or o in ("start", "runall")
            op(o, xs=xs(6) if o == "reset" else [], stop=rng.choice([1, 2, 3, 100]) if o == "runall" else 0)
    return s


def coll_from(order, anchor):
    def go(ops):
        out = []
        for o in ops:
            out.append(o)
            out += [dict(o, op=q) for q in ("items", "count", "top")]
        xs = sorted(set(order) | {anchor, 9})
        out += [dict(ops[0], op=q, x=x) for x in xs for q in ("contains", "position")]
        return {"kind": "coll", "what": "set", "type": "int", "order": order, "anchor": anchor, "ops": out}
    return go


def chain(rng):
    order = [6, 3, 5, 2, 4]
    if rng.random() < 0.5:
        rng.shuffle(order)
    order = order[:rng.randint(1, 5)]
    s = {"kind": "chain", "active": order[:], "order": order, "seal": [rng.choice(order)] if rng.random() < 0.25 else [], "ops": []}
    n = 0
    for _ in range(rng.randint(2, 14)):
        x = rng.random()
        if x < 0.4:
            n += 1
            s["ops"].append({"op": "decorate", "role": rng.choice(order), "l": n, "say": None})
        elif x < 0.5:
            s["ops"].append({"op": "unwind", "role": rng.choice(order + [1]), "l": 0, "say": None})
        elif x < 0.55:
            n += 1
            s["ops"].append({"op": "swap", "role": 0, "l": n, "say": None})
        else:
            s["ops"].append(invocation(rng, n))
    s["ops"].append(invocation(rng, n))
    return s


def invocation(rng, n):
    quiet = rng.random() < 0.4
    return {"op": "invoke", "role": 0, "l": 0,
            "say": {chr(97 + l): rng.choice(["pass"] * 6 + (["stop", "fail", "both"] if not quiet else []) + ["unwind"]) for l in range(n + 1)}}


def chain_from(order, seal):
    def go(ops):
        out = []
        for k, o in enumerate(ops):
            out.append(dict(o, say=None))
            out.append({"op": "invoke", "role": 0, "l": 0, "say": {}})
        # then everyone in turn declines, or fails
        for l in range(len(ops) + 1):
            out.append({"op": "invoke", "role": 0, "l": 0, "say": {chr(97 + l): ["stop", "fail", "both"][l % 3]}})
        out.append({"op": "invoke", "role": 0, "l": 0, "say": {chr(97 + l): "unwind" for l in range(1, len(ops) + 1)}})
        out.append({"op": "invoke", "role": 0, "l": 0, "say": {}})
        return {"kind": "chain", "active": order, "order": order, "seal": seal, "ops": out}
    return go


def chain_row(ev):
    """what the links are to answer, as pairs"""
    out = []
    for e in ev:
        e = dict(e)
        if e.get("e") == "op":
            e["say"] = [[ord(k) - 97, v] for k, v in sorted((e.get("say") or {}).items()) if k != "z"]
        out.append(e)
    return out


# ------------------------------------------------------------- session files --
TEXTS = ["", "x", "*.txt", "^Ab.*c$", "a\"b\\c", "<&>'", "\u00e9\u4e16\U0001F600", "tab\tnl\nnul\u0001", "\u2028\u2029", " lead", "/a/b c/", "null", "{}",
         "item-01_[x]|flac,mp3"]


def pick_bool(rng):
    return rng.choice(["true", "false"])


def flat_def(rng, m, p, poly=True, deep=0):
    m[p] = "set"
    m[p + ".type"] = str(rng.randint(0, 7))
    m[p + ".desc"] = rng.choice(TEXTS)
    m[p + ".pat"] = rng.choice(TEXTS)
    m[p + ".scope"] = str(rng.choice([0, 1, 2, 4, 8, 16, 32, 64, 6, 96]))
    m[p + ".neg"] = pick_bool(rng)
    m[p + ".ina"] = str(rng.randint(0, 2))
    m[p + ".poly"] = "nil"
    if poly and rng.random() < (0.4 if deep == 0 else 0.1):
        m[p + ".poly"] = "set"
        flat_def(rng, m, p + ".poly.file", poly=deep < 1, deep=deep + 1)
        flat_def(rng, m, p + ".poly.dir", poly=deep < 1, deep=deep + 1)


def flat_options(rng, dense=None):
    """dense: how often a field is away from its usual value"""
    d = rng.choice([0.1, 0.5, 0.9]) if dense is None else dense
    far = lambda v, w: v if rng.random() < d else w
    n = lambda: str(rng.choice([0, 1, 2, 3, 7, 255, 65536, 2 ** 31, 2 ** 53 + 1, 2 ** 63 - 1]))
    m = {"keep": far(pick_bool(rng), "false"), "case": far(pick_bool(rng), "false"), "first": far(pick_bool(rng), "false"),
         "depth": far(n(), "0"), "norec": far(pick_bool(rng), "false"), "samp": far(str(rng.randint(0, 3)), "0"),
         "samp.rev": far(pick_bool(rng), "false"), "samp.files": far(n(), "0"), "samp.dirs": far(n(), "0"),
         "inc.wake": far(pick_bool(rng), "true"), "inc.sleep": far(pick_bool(rng), "false"), "now": far(n(), "0"),
         "child": "nil", "sample": "nil", "node": "nil", "wake": "nil", "sleep": "nil"}
    for p in ("node", "wake", "sleep"):
        if rng.random() < d:
            flat_def(rng, m, p)
    if rng.random() < d:
        m.update({"child": "set", "child.type": str(rng.randint(0, 7)), "child.desc": rng.choice(TEXTS), "child.pat": rng.choice(TEXTS),
                  "child.neg": pick_bool(rng)})
    if rng.random() < d:
        m.update({"sample": "set", "sample.type": str(rng.randint(0, 7)), "sample.desc": rng.choice(TEXTS), "sample.pat": rng.choice(TEXTS),
                  "sample.neg": pick_bool(rng), "sample.scope": str(rng.choice([0, 1, 2, 4, 6, 64]))})
    return m


def flat_active(rng):
    m = {"tree": rng.choice(TEXTS + ["/home/a", "a/b", "."]), "sub": str(rng.randint(0, 4)), "hib": str(rng.randint(0, 4)),
         "at": rng.choice(TEXTS + ["/home/a/b", "a/b/c.txt"]), "isdir": pick_bool(rng), "depth": str(rng.randint(0, 9)),
         "trel": pick_bool(rng), "rrel": pick_bool(rng)}
    for k in range(1, 7):
        if rng.random() < 0.7:
            m["m%d" % k] = str(rng.choice([0, 1, 5, 1000, 2 ** 53 + 1]))
    return m


def nearby(rng, m):
    """the same but for one field"""
    out = dict(m)
    k = rng.choice(sorted(m))
    v = m[k]
    if v in ("true", "false"):
        out[k] = "true" if v == "false" else "false"
    elif v == "nil":
        if k in ("child",):
            out.update({"child": "set", "child.type": "3", "child.desc": "", "child.pat": "", "child.neg": "false"})
        elif k == "sample":
            out.update({"sample": "set", "sample.type": "0", "sample.desc": "", "sample.pat": "", "sample.neg": "false", "sample.scope": "0"})
        elif k.endswith("poly"):
            out[k] = "set"
            flat_def(rng, out, k + ".file", poly=False)
            flat_def(rng, out, k + ".dir", poly=False)
        else:
            flat_def(rng, out, k, poly=False)
    elif v == "set" and not (".poly." in k and k.rsplit(".", 1)[1] in ("file", "dir")):
        for x in [x for x in out if x.startswith(k + ".")]:
            del out[x]
        out[k] = "nil"
    elif v == "set":
        out[k + ".desc"] += "y"
    elif k.endswith((".desc", ".pat")):
        out[k] = v + "z" if rng.random() < 0.5 else (v.upper() if v.upper() != v else v + " ")
    else:
        out[k] = str((int(v) + 1) % 2 if k.endswith((".ina", ".type", "samp")) else int(v) + 1 if int(v) < 2 ** 62 else 1)
    return out


DAMAGE = ["cut", "cut", "tail", "head", "other", "section", "nosection", "kind", "kind", "kind"]


def per_op(**kw):
    o = {"op": "", "f": "f", "o": {}, "o2": {}, "a": {}, "fault": "none", "how": "", "i": 0}
    o.update(kw)
    return o


def persist(rng):
    files = ["f", "g", "dir/h"][:rng.randint(1, 3)]
    ops = []
    o = flat_options(rng)
    for _ in range(rng.randint(2, 8)):
        f = rng.choice(files)
        x = rng.random()
        if x < 0.35:
            if rng.random() < 0.7:
                o = flat_options(rng)
            elif rng.random() < 0.5:
                o = nearby(rng, o)
            ops.append(per_op(op="save", f=f, o=o, a=flat_active(rng), fault=rng.choice(["none"] * 6 + ["refuse", "torn"]),
                              how=rng.choice(["", "scribble"]), i=rng.randint(0, 100000)))
        elif x < 0.6:
            ops.append(per_op(op="load", f=f))
        elif x < 0.7:
            ops.append(per_op(op="damage", f=f, how=rng.choice(DAMAGE), i=rng.randint(0, 100000)))
        elif x < 0.73:
            ops.append(per_op(op="remove", f=f))
        elif x < 0.9:
            ops.append(per_op(op="compare", o=o, o2=nearby(rng, o) if rng.random() < 0.8 else rng.choice([o, flat_options(rng)])))
        elif x < 0.98:
            ops.append(per_op(op="convert", o=flat_options(rng)))
        else:
            ops.append(per_op(op="nothing", o=o, i=rng.randint(0, 2)))
    for f in files:
        ops.append(per_op(op="load", f=f))
    return {"kind": "persist", "ops": ops}


def persist_from(ops):
    import random
    rng = random.Random("persist")
    vals = {"plain": (flat_options(rng, 0), flat_active(rng)), "rich": (flat_options(rng, 1), flat_active(rng))}
    out = []
    for k, o in enumerate(ops):
        v = vals.get(o["v"], ({}, {}))
        out.append(per_op(op=o["op"], f=o["f"], o=v[0], a=v[1], fault=o["fault"], how=DAMAGE[(k * 7 + len(o["v"])) % len(DAMAGE)] if o["op"] == "damage" else "",
                          i=(k + 1) * 997))
        out += [per_op(op="load", f=f) for f in ("f", "g")]
    return {"kind": "persist", "ops": out}
