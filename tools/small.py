"""Small universes: for each property, ALL trees up to a given number of nodes
combined with all values of the options that the property turns on.  They are
model checked (MCWalk) and also run through the real code."""
import itertools
import gen

NAMES = ["root", "b", "A", "c", "B", "a", "C", "d"]


def shapes(n):
    """rooted trees of n nodes, each leaf a file or a directory, up to isomorphism:
    a file is 'f', a directory the sorted tuple of its entries"""
    def forests(k, least):
        # multisets of subtrees of total size k, in canonical order
        if k == 0:
            yield ()
            return
        for size in range(1, k + 1):
            for x in trees(size):
                key = (size, repr(x))
                if key < least:
                    continue
                for rest in forests(k - size, key):
                    yield (x,) + rest

    memo = {}

    def trees(k):
        if k not in memo:
            memo[k] = (["f"] if k == 1 else []) + [("d",) + f for f in forests(k - 1, (0, ""))]
        return memo[k]
    return trees(n)


def nodes(shape, root="root"):
    out = []

    def go(x, par):
        i = len(out) + 1
        out.append(dict(id=i, parent=par, name=root if i == 1 else NAMES[i - 1], dir=x != "f"))
        if x != "f":
            for y in x[1:]:
                go(y, i)
    go(shape, 0)
    return out


def trees(upto, least=1):
    return [nodes(s) for n in range(least, upto + 1) for s in shapes(n)]


def base(ns, sub, **kw):
    s = dict(kind="walk", fs="mem", root="", nodes=[dict(x) for x in ns], sub=sub, entry="walk", opt={}, perm=[])
    s["opt"] = kw.pop("opt", {})
    s.update(kw)
    return s


def name(ns, i):
    return ns[i - 1]["name"]


def is_(nm, **kw):
    """the filter that accepts exactly this name"""
    f = dict(type="glob", pattern=nm, scope=[], negate=False, ina="undefined", tok=[gen.lit(c) for c in nm])
    f.update(kw)
    return f


def any_(**kw):
    f = dict(type="glob", pattern="*", scope=[], negate=False, ina="undefined", tok=[gen.STAR])
    f.update(kw)
    return f


def ids(ns):
    return [x["id"] for x in ns]


def dirs(ns):
    return [x["id"] for x in ns if x["dir"]]


def each(upto, least=1):
    for ns in trees(upto, least):
        for sub in gen.SUBS:
            yield ns, sub


def C01(k):
    for ns, sub in each(k + 1):
        for ff in (False, True):
            yield base(ns, sub, opt=dict(filesfirst=ff))
        fs = [n for n in ns[1:] if not n["dir"]]
        if fs:
            for kind in ("pipe", "link", "socket", "device", "odd"):
                yield base([dict(n, kind=kind) if n in fs else n for n in ns], sub)
        if len(ns) > 1:
            yield base(ns, sub, infofail=ids(ns)[1:])


def C02(k):
    for ns, sub in each(k):
        for ff, how, back in itertools.product((False, True), ("", "casesens", "reverse"), (False, True)):
            o = dict(filesfirst=ff)
            if how == "reverse":
                o["sorthook"] = how
            elif how:
                o[how] = True
            yield base(ns, sub, opt=o, perm=list(range(len(ns), 0, -1)) if back else [])


def C03(k):
    for ns, sub in each(k + 1):
        for dep in (0, 1, 2, 3, -1):
            yield base(ns, sub, opt=dict(norecurse=True) if dep < 0 else dict(depth=dep))


def C04(k):
    for ns, sub in each(k + 1):
        for ns_ in (False, True):
            yield base(ns, sub, opt=dict(nosep=ns_))
        for i in ids(ns)[1:]:
            yield base(ns, sub, infofail=[i])


def scripted(k, acts=("err", "werr", "skipdir", "skipall")):
    for ns, sub in each(k):
        for i in ids(ns):
            for a in acts:
                yield base(ns, sub, script=[dict(at=i, act=a)])
        for i, j in itertools.combinations(ids(ns), 2):
            yield base(ns, sub, script=[dict(at=i, act="skipdir"), dict(at=j, act="skipdir")])


def C05(k):
    yield from scripted(k, ("err", "skipdir", "skipall"))


C07 = scripted


def C06(k):
    for ns, sub in each(k):
        for f in (None, any_(negate=True), is_(name(ns, len(ns)), negate=True), any_(scope=["file"], ina="false")):
            for c in (None, is_(name(ns, len(ns)))) if sub != "files" else (None,):
                for at, act in [(0, "")] + [(i, a) for i in ids(ns) for a in ("err", "skipdir", "skipall")]:
                    s = base(ns, sub, filter=f, child=c)
                    if at:
                        s["script"] = [dict(at=at, act=act)]
                    yield s


def C08(k):
    sc = [[], ["all"]] + [[x] for x in gen.SCOPES] + [["file", "tree"], ["leaf", "top"]]
    for ns, sub in each(k):
        for scope, ina, neg in itertools.product(sc, ("undefined", "true", "false"), (False, True)):
            yield base(ns, sub, filter=is_(name(ns, len(ns)), scope=scope, ina=ina, negate=neg))
        for fn, dn in itertools.product(("*", name(ns, len(ns))), ("*", name(ns, 1))):
            lits = lambda t: [gen.STAR if c == "*" else gen.lit(c) for c in t]
            yield base(ns, sub, filter=dict(type="poly", pattern="", scope=[], negate=False, ina="undefined", tok=[],
                                            file=is_(fn, tok=lits(fn)), dir=is_(dn, tok=lits(dn))))


def C09(k):
    for ns in trees(k + 1):
        for sub in ("dirfiles", "directories", "universal"):
            fs = [x for x in ns if not x["dir"]]
            for c in [None] + [any_(negate=True), any_()] + [is_(x["name"], negate=g) for x in fs for g in (False, True)]:
                if c or sub == "dirfiles":
                    yield base(ns, sub, child=c, opt=dict(filesfirst=bool(c)))


def C10(k):
    for ns, sub in each(k):
        for i, j in itertools.product([0] + ids(ns), repeat=2):
            if i or j:
                for a, b in itertools.product((False, True), repeat=2):
                    if (a and not i) or (b and not j):
                        continue
                    yield base(ns, sub, hib=dict(wake=is_(name(ns, i)) if i else None, sleep=is_(name(ns, j)) if j else None,
                                                 exclwake=a, inclsleep=b, viaopts=False))


def C11(k):
    for ns, sub in each(k + 1):
        kids = [x for x in ns if x["parent"]]
        if len(kids) < 2:
            continue
        for f, d, r in itertools.product((0, 1, 2), (0, 1, 2), (False, True)):
            if f or d:
                yield base(ns, sub, sampling=dict(type="slice", rev=r, files=f, dirs=d, filter=None), opt=dict(filesfirst=r))


def C12(k):
    for ns, sub in each(k):
        for fault in ("", "nil", "swap"):
            yield base(ns, sub, statfail=True, fault=fault)
        for i in ids(ns)[1:]:
            yield base(ns, sub, infofail=[i])
        ds = dirs(ns)
        for m in range(len(ds) + 1):
            for rf in itertools.combinations(ds, m):
                yield base(ns, sub, readfail=list(rf))
                for at in [0] + (ids(ns) if sub == "universal" else ds):
                    for ans, err in (("dir", False), ("all", False), ("all", True)) if at else (("", False),):
                        yield base(ns, sub, readfail=list(rf), skipon=True, skip=[dict(at=at, ans=ans, err=err)] if at else [])


def C13(k):
    for ns, sub in each(k + 1):
        for i in ids(ns):
            yield base(ns, sub, script=[dict(at=i, act="panic")], panic="")
    # sessions that are interrupted again
    for ns, sub in each(k - 1):
        for i, j in itertools.product(ids(ns), repeat=2):
            for st in itertools.product(("fastward", "spawn"), repeat=2):
                yield base(ns, sub, script=[dict(at=i, act="panic")],
                           resume=[dict(strategy=st[0], at=0, script=[dict(at=j, act="panic")]), dict(strategy=st[1], at=0, script=[])])


def C14(k):
    for ns, sub in each(k):
        for i in ids(ns):
            for st in ("fastward", "spawn"):
                for o in ({}, dict(filesfirst=True), dict(depth=1), dict(depth=2)):
                    yield base(ns, sub, script=[dict(at=i, act="panic")], resume=[dict(strategy=st, at=0, script=[])], opt=dict(o))
                fs = [x["id"] for x in ns[1:] if not x["dir"]]
                if fs:
                    yield base([dict(x, kind="link") if x["id"] in fs else x for x in ns], sub, script=[dict(at=i, act="panic")],
                               resume=[dict(strategy=st, at=0, script=[])])
                if len(ns) > 1:
                    yield base(ns, sub, infofail=ids(ns)[1:], script=[dict(at=i, act="panic")], resume=[dict(strategy=st, at=0, script=[])])


def C16(k):
    for ns, sub in each(k - 1):
        for now, out in itertools.product((1, 2), (False, True)):
            s = base(ns, sub, entry="run", opt=dict(now=now, output=out, outsize=0) if out else dict(now=now))
            yield s
            if out:
                yield dict(s, script=[dict(at=ids(ns)[-1], act="err")])


def C22(k):
    for ns, sub in each(k - 1):
        for e in itertools.product(("walk", "tortoise", "hydra", "run"), repeat=2):
            yield base(ns, sub, entries=list(e), opt=dict(now=2))


def C24(k):
    """one of everything that can be combined pairwise"""
    for ns, sub in each(k):
        last = name(ns, len(ns))
        feats = {
            "filter": dict(filter=is_(last, negate=True)),
            "wake": dict(hib=dict(wake=is_(name(ns, min(2, len(ns)))), sleep=None, exclwake=False, inclsleep=False, viaopts=False)),
            "sleep": dict(hib=dict(wake=None, sleep=is_(last), exclwake=False, inclsleep=True, viaopts=False)),
            "child": dict(child=any_(scope=[])) if sub != "files" else None,
            "sample": dict(sampling=dict(type="slice", rev=True, files=1, dirs=1, filter=None)),
            "read": dict(readfail=dirs(ns)[-1:], skipon=True, skip=[]) if dirs(ns) else None,
            "ask": dict(skipon=True, skip=[dict(at=ids(ns)[-1], ans="all", err=True)]),
            "skip": dict(script=[dict(at=min(2, len(ns)), act="skipdir")]),
            "err": dict(script=[dict(at=ids(ns)[-1], act="err")]),
            "depth": dict(opt=dict(depth=1)),
            "ff": dict(opt=dict(filesfirst=True)),
        }
        feats = {f: v for f, v in feats.items() if v}
        for st in ("fastward", "spawn"):
            for i in ids(ns):
                feats["%s %d" % (st, i)] = dict(script=[dict(at=i, act="panic")], resume=[dict(strategy=st, at=0, script=[])])
        for a, b in itertools.combinations(feats, 2):
            if feats[b].get("resume") and a in ("wake", "sleep", "read"):
                continue
            if set(feats[a]) & set(feats[b]):
                continue
            yield base(ns, sub, **dict(feats[a], **feats[b]))


def universe(prop, tier):
    f = globals().get(prop)
    return list(f(4 if tier == "quick" else 5)) if f else []
