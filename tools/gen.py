"""Seeded scenario generator for navigations.  Produces the harness' JSON
scenarios; every pattern carries its token structure (`tok`) so that the
specification interprets structure, never concrete syntax."""
import random

SUBS = ["universal", "directories", "files", "dirfiles"]

BASES = {
    "plain": ["a", "b", "c", "d", "e", "f", "g", "aa", "ab", "ba", "bb", "abc", "x1", "x10", "x2", "x9"],
    "files": ["track.flac", "info.txt", "cover.jpg", "vinyl.txt", "a.b.flac", "cover.night.jpg", "x.tar.gz", "readme", ".hidden",
              "track2.flac", "track10.flac", "vinyl-info.dark.txt", "folder.jpg", "z."],
    "dup": ["a", "b", "c", "A"],
    "mixed": ["Alpha", "alpha", "ALPHA", "Beta", "beta", "Gamma", "gAmma", "delta", "Delta", "eps", "Zed", "zed", "_u", "Mid", "mid"],
    "odd": ["a b", "a-b", "a.b", "a_b", "a+b", "~x", "x'y", "50%", "#tag", "(p)", "{q}", "é", "Éa", "日本", "ñandú", "übung", "Ünique",
            "a.", "..x", "...", "-", "--f", "@", "a,b", "a|b", "a;b", "x=y", "&", "$v", "^c", "tab\tx", "[k]", "q?", "s*r", "b\\s", "ﬁ", "🎧"],
}
ROOTS = ["root", "t", "Música", "日本", "r.d", "a", "my music", "Ünder", "root-1"]


def tree(rng, n, style=None, shape=None, fileroot=False, rootname=None, dirbias=0.5):
    style = style or rng.choice(["plain", "files", "mixed", "odd", "dup", "any", "any"])
    shape = shape or rng.choice(["any", "any", "deep", "wide", "comb"])
    nodes = [dict(id=1, parent=0, name=rootname or rng.choice(ROOTS), dir=not fileroot)]
    if fileroot:
        return nodes
    used = {1: set()}
    dirs = [1]
    while len(nodes) < n:
        if shape == "deep":
            par = dirs[-1] if rng.random() < 0.75 else rng.choice(dirs)
        elif shape == "wide":
            par = 1 if rng.random() < 0.7 else rng.choice(dirs)
        elif shape == "comb":
            par = dirs[-1] if rng.random() < 0.5 else dirs[max(0, len(dirs) - 2)]
        else:
            par = rng.choice(dirs)
        pool = BASES[style] if style in BASES else BASES[rng.choice(list(BASES))]
        nm = rng.choice(pool)
        k = 0
        while nm in used[par]:
            k += 1
            nm = rng.choice(pool) + (str(rng.randrange(100)) if k > 4 else "")
        used[par].add(nm)
        isdir = rng.random() < dirbias
        i = len(nodes) + 1
        nodes.append(dict(id=i, parent=par, name=nm, dir=isdir))
        if isdir:
            dirs.append(i)
            used[i] = set()
    if rng.random() < 0.1:
        # what is not a directory need not be a regular file
        for x in nodes[1:]:
            if not x["dir"] and rng.random() < 0.4:
                x["kind"] = rng.choice(["pipe", "link", "socket", "device", "odd"])
    return nodes


def lit(c):
    return {"k": "lit", "c": ord(c), "s": [], "neg": False}


ANY = {"k": "any", "c": 0, "s": [], "neg": False}
STAR = {"k": "star", "c": 0, "s": [], "neg": False}


def cset(chars, neg=False):
    return {"k": "set", "c": 0, "s": sorted({ord(c) for c in chars}), "neg": neg}


def render_glob(toks):
    out = ""
    for t in toks:
        if t["k"] == "any":
            out += "?"
        elif t["k"] == "star":
            out += "*"
        elif t["k"] == "lit":
            c = chr(t["c"])
            out += ("\\" + c) if c in "*?[\\" else c
        else:
            out += "[" + ("^" if t["neg"] else "") + "".join(("\\" + chr(c)) if chr(c) in "]-\\^" else chr(c) for c in t["s"]) + "]"
    return out


def glob_tokens(rng, names):
    """A glob that has a decent chance to match some of the names."""
    nm = rng.choice(names) if names else "a"
    r = rng.random()
    if r < 0.07:
        return [STAR]
    if r < 0.25:
        return [lit(c) for c in nm]
    if r < 0.4 and "." in nm:
        return [STAR] + [lit(c) for c in nm[nm.rindex("."):]]
    if r < 0.55:
        k = rng.randrange(len(nm) + 1)
        return [lit(c) for c in nm[:k]] + [STAR]
    if r < 0.65:
        k = rng.randrange(len(nm) + 1)
        return [STAR] + [lit(c) for c in nm[k:k + 1 + rng.randrange(2)]] + [STAR]
    out = []
    i = 0
    while i < len(nm):
        q = rng.random()
        if q < 0.6:
            out.append(lit(nm[i]))
        elif q < 0.75:
            out.append(ANY)
        elif q < 0.9:
            neg = rng.random() < 0.3
            cs = set(rng.sample("abcdxyz019", 2))
            if neg:
                cs.discard(nm[i])
                cs = cs or {"~"}
            else:
                cs.add(nm[i])
            out.append(cset(cs, neg))
        else:
            if not (out and out[-1]["k"] == "star"):
                out.append(STAR)
            i += rng.randrange(3)
        i += 1
    return out or [STAR]


def rex_alts(rng, names):
    alts = []
    for _ in range(1 if rng.random() < 0.75 else 2):
        nm = rng.choice(names) if names else "a"
        i = rng.randrange(len(nm))
        j = rng.randrange(i + 1, len(nm) + 1)
        items = []
        for c in nm[i:j]:
            q = rng.random()
            it = dict(lit(c)) if q < 0.65 else dict(ANY) if q < 0.8 else dict(cset({c} | set(rng.sample("abcxyz", 2))))
            it["q"] = rng.choice(["1"] * 8 + ["?", "*", "+"])
            items.append(it)
        alts.append({"begin": rng.random() < 0.4 and (i == 0 or rng.random() < 0.2),
                     "end": rng.random() < 0.4 and (j == len(nm) or rng.random() < 0.2), "items": items})
    return alts


def render_rex(alts):
    def esc(c):
        return ("\\" + c) if c in "\\.+*?()|[]{}^$" else c
    parts = []
    for a in alts:
        s = "^" if a["begin"] else ""
        for it in a["items"]:
            if it["k"] == "lit":
                s += esc(chr(it["c"]))
            elif it["k"] == "any":
                s += "."
            else:
                s += "[" + ("^" if it["neg"] else "") + "".join(("\\" + chr(c)) if chr(c) in "]-\\^[" else chr(c) for c in it["s"]) + "]"
            s += "" if it["q"] == "1" else it["q"]
        s += "$" if a["end"] else ""
        parts.append(s)
    return "|".join(parts)


SCOPES = ["tree", "top", "leaf", "intermediate", "file", "directory"]


def simple_filter(rng, names, types=("glob", "regex"), scoped=True):
    ty = rng.choice(types)
    f = dict(type=ty, pattern="", scope=[], negate=rng.random() < 0.25, ina=rng.choice(["undefined", "true", "false"]), tok=[])
    if ty == "glob":
        f["tok"] = glob_tokens(rng, names)
        f["pattern"] = render_glob(f["tok"])
    elif ty == "regex":
        f["tok"] = rex_alts(rng, names)
        f["pattern"] = render_rex(f["tok"])
    elif ty == "custom":
        f["match"] = sorted(set(rng.sample(names, rng.randrange(len(names) + 1)))) if names else []
        return f
    if scoped:
        r = rng.random()
        f["scope"] = ([] if r < 0.25 else ["all"] if r < 0.4 else ["file"] if r < 0.52 else ["directory"] if r < 0.64
                      else sorted(rng.sample(SCOPES, rng.randrange(1, 4))))
    return f


def globex_filter(rng, nodes):
    """<dir glob>[/<excluded dir glob>]|<spec>[,<spec>...] in lower case."""
    fnames = [n["name"] for n in nodes if not n["dir"]]
    dnames = [n["name"].lower() for n in nodes if n["dir"]]
    safe = lambda nm: all(c.isascii() and (c.isalnum() or c in "._-") for c in nm) and nm == nm.lower()
    dn = [d for d in dnames if safe(d)] or ["a"]
    r = rng.random()
    if r < 0.4:
        dt = [STAR]
    elif r < 0.7:
        d = rng.choice(dn)
        dt = [lit(c) for c in d[:1 + rng.randrange(len(d))]] + [STAR]
    else:
        dt = [STAR] + [lit(c) for c in rng.choice(dn)[-1:]]
    hasx = rng.random() < 0.35
    xt = []
    if hasx:
        d = rng.choice(dn)
        xt = rng.choice([[lit(c) for c in d], [lit(d[0]), STAR], [STAR] + [lit(d[-1])]])
    exts = sorted({nm[nm.rindex(".") + 1:] for nm in fnames if "." in nm and safe(nm) and nm[nm.rindex(".") + 1:]}) or ["txt"]
    specs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ext = rng.choice(exts + ["flac", "jpg"])
        excl = rng.random() < 0.3
        base = rng.choice(["", "*", "*", "t*", "c*", "*.o*", "v*", "*i*", "*.*"])
        pat = base + "." + ("!" if excl else "") + ext
        m = (base or "*") + "." + ext
        toks = [STAR if c == "*" else lit(c) for c in m]
        # a wildcard extension
        if rng.random() < 0.15:
            pat = base + "." + ("!" if excl else "") + "*"
            toks = [STAR if c == "*" else lit(c) for c in (base or "*") + ".*"]
        # how it is spelt doesn't matter, nor do blanks around it
        if rng.random() < 0.12 and pat.isascii():
            pat = pat.upper()
        if rng.random() < 0.1:
            pat = rng.choice([" " + pat, pat + " ", "  " + pat + " "])
        specs.append(dict(pat=toks, excl=excl, txt=pat))
    texts = [s["txt"] for s in specs]
    # nothing at all, or the mark of exclusion with nothing to exclude, is left out
    if rng.random() < 0.1:
        texts.insert(rng.randrange(len(texts) + 1), rng.choice(["", "!"]))
    return dict(type="globex", pattern=render_glob(dt) + ("/" + render_glob(xt) if hasx else "") + "|" + ",".join(texts),
                scope=[], negate=rng.random() < 0.2, ina=rng.choice(["undefined", "true", "false"]), tok=[],
                dirt=dt, hasx=hasx, dirx=xt, specs=[dict(pat=s["pat"], excl=s["excl"]) for s in specs])


def node_filter(rng, nodes, kinds=("glob", "regex", "globex", "custom", "poly")):
    names = [n["name"] for n in nodes]
    ty = rng.choice(kinds)
    if ty == "globex":
        return globex_filter(rng, nodes)
    if ty == "poly":
        fn = [n["name"] for n in nodes if not n["dir"]] or names
        dn = [n["name"] for n in nodes if n["dir"]] or names
        return dict(type="poly", pattern="", scope=[], negate=False, ina="undefined", tok=[],
                    file=simple_filter(rng, fn), dir=simple_filter(rng, dn))
    return simple_filter(rng, names, (ty,))


def opts(rng, depth=True, sort=True):
    o = {}
    if depth and rng.random() < 0.3:
        o["depth"] = rng.randrange(1, 6)
    if depth and rng.random() < 0.12:
        o["norecurse"] = True
    if sort:
        o["filesfirst"] = rng.random() < 0.4
        r = rng.random()
        if r < 0.25:
            o["casesens"] = True
        elif r < 0.35:
            o["casehook"] = True
        elif r < 0.45:
            o["sorthook"] = "reverse"
    o["nosep"] = rng.random() < 0.3
    if rng.random() < 0.15:
        o["vianb"] = True
    return o


def perm(rng, nodes):
    return [rng.randrange(100) for _ in nodes]


def sampling(rng, nodes, kinds=("slice", "filter", "slicefilter", "custom")):
    names = [n["name"] for n in nodes[1:]] or ["a"]
    k = rng.choice(kinds)
    s = dict(type="slice", rev=rng.random() < 0.5, files=rng.randrange(0, 4), dirs=rng.randrange(0, 4), filter=None)
    if k == "slice":
        return s
    f = simple_filter(rng, names, ("glob", "regex"), scoped=False)
    f["scope"] = rng.choice([["file"], ["directory"], ["file"], ["directory"]])
    if k == "custom":
        f = dict(type="custom", pattern="", scope=[], negate=False, ina="undefined", tok=[],
                 match=sorted(set(rng.sample(names, rng.randrange(1, len(names) + 1)))) + [nodes[0]["name"]])
        s["type"] = "custom"
        if rng.random() < 0.4:
            f["scope"] = rng.choice([["file"], ["directory"]])
            s["files"], s["dirs"] = max(1, s["files"]), max(1, s["dirs"])
    else:
        s["type"] = "filter" if k == "filter" else "slice"
        # a file (directory) scoped sampling filter needs a file (directory) quota
        if "file" in f["scope"]:
            s["files"] = max(1, s["files"])
        if "directory" in f["scope"]:
            s["dirs"] = max(1, s["dirs"])
    s["filter"] = f
    return s


def hibernation(rng, nodes):
    names = [n["name"] for n in nodes]
    h = dict(wake=None, sleep=None, exclwake=rng.random() < 0.5, inclsleep=rng.random() < 0.5, viaopts=rng.random() < 0.3)
    r = rng.random()
    if r < 0.75:
        h["wake"] = simple_filter(rng, names, scoped=rng.random() < 0.4)
    if r > 0.25:
        h["sleep"] = simple_filter(rng, names, scoped=rng.random() < 0.4)
    for k in ("wake", "sleep"):
        if h[k]:
            h[k]["negate"] = rng.random() < 0.1
            if rng.random() < 0.7:
                h[k]["ina"] = "false"
    return h


def base(rng, n, sub=None, **kw):
    nodes = tree(rng, n, **kw)
    s = dict(kind="walk", fs="mem", root=rng.choice(["", "", "p", "p/q", "Ä/b"]), nodes=nodes,
             sub=sub or rng.choice(SUBS), entry="walk", opt=opts(rng), perm=perm(rng, nodes) if rng.random() < 0.5 else [])
    return s
