"""Which machinery decides which property."""
import concurrent.futures as cf, json, os, random, re
import lib, norm, profiles, small, units

HOOKS_CFG = ("SPECIFICATION Spec\nCONSTANT N = %d\nCONSTANT KS = %s\nINVARIANT Dump\nINVARIANT InForce\nINVARIANT Undone\n"
             "PROPERTY Apart\nCHECK_DEADLOCK FALSE\n")
NOTES_CFG = ("SPECIFICATION Spec\nCONSTANT N = %d\nCONSTANT KS = %s\nINVARIANT Dump\nINVARIANT InOrder\nINVARIANT AllBack\n"
             "INVARIANT AllQuiet\nPROPERTY Apart\nCHECK_DEADLOCK FALSE\n")
COLL_CFG = ("SPECIFICATION Spec\nCONSTANT N = %d\nCONSTANT Which = %d\nINVARIANT Dump\nINVARIANT Unique\n"
            "INVARIANT AnchorLast\nINVARIANT Fixed\nINVARIANT Exact\nINVARIANT Members\nCHECK_DEADLOCK FALSE\n")
CHAIN_CFG = ("SPECIFICATION Spec\nCONSTANT N = %d\nCONSTANT Which = %d\nINVARIANT Dump\nINVARIANT Once\n"
             "INVARIANT InOrder\nINVARIANT ClientLast\nCHECK_DEADLOCK FALSE\n")
BUS_CFG = "SPECIFICATION Spec\nCONSTANT N = %d\nINVARIANT Dump\nINVARIANT Both\nPROPERTY Apart\nCHECK_DEADLOCK FALSE\n"
PERSIST_CFG = ("SPECIFICATION Spec\nCONSTANT N = %d\nINVARIANT Dump\nINVARIANT NoInvention\nINVARIANT NoLoss\n"
               "PROPERTY Apart\nCHECK_DEADLOCK FALSE\n")
CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


RACE_ENV = dict(os.environ, GORACE="halt_on_error=1 exitcode=66")


def record(chk, scs, workers, alone=None):
    """record the scenarios; for checks about schedules, every other one with the
    build that reports unsynchronised accesses (which end the recording); those
    that were not reached are removed from the scenarios"""
    got = recorded(chk, scs, workers, alone)
    scs[:] = [s for s in scs if s["id"] in got]
    return got


def recorded(chk, scs, workers, alone):
    if not chk.race:
        return lib.run_harness(lib.build_harness(chk.work, group=chk.group), scs, workers=workers, **(alone or {}))
    plain = [s for s in scs if s["id"] % 2]
    raced = [s for s in scs if not s["id"] % 2]
    got = {}
    if plain:
        got.update(lib.run_harness(lib.build_harness(chk.work, group=chk.group), plain, workers=workers, **(alone or {})))
    if raced:
        got.update(lib.run_harness(lib.build_harness(chk.work, race=True, group=chk.group), raced, workers=workers, env=RACE_ENV, **(alone or {})))
    return got


def split(rows, k):
    k = max(1, min(k, (len(rows) + 39) // 40))
    return [rows[i::k] for i in range(k)]


def validate(module, consts, rows, work, procs=6, timeout=800):
    """rows: [(key, row)] -> (accepted keys, states, transitions)"""
    acc, states, trans = set(), 0, 0

    def one(args):
        i, part = args
        f = os.path.join(work, "%s-%d.ndjson" % (module, i))
        lib.ndjson(f, [r for _, r in part])
        cfg = CFG + "".join("CONSTANT %s = %s\n" % kv for kv in consts.items())
        x = lib.tlc(module, cfg, work, env={"TRACE": f}, workers=1, timeout=timeout)
        if x["rc"] != 0:
            raise lib.Infra("TLC failed on %s:\n%s" % (module, x["out"][-3000:]))
        ok = {int(m) for m in re.findall(r'<<"ACC", (\d+)>>', x["out"])}
        os.unlink(f)
        return {part[t - 1][0] for t in ok}, x["distinct"], max(0, x["states"] - len(part))

    parts = split(rows, procs)
    with cf.ThreadPoolExecutor(procs) as ex:
        for a, s, t in ex.map(one, enumerate(parts)):
            acc |= a
            states += s
            trans += t
    return acc, states, trans


def diagnose(module, consts, row, work):
    f = os.path.join(work, "diag.ndjson")
    lib.ndjson(f, [row])
    cfg = CFG + "".join("CONSTANT %s = %s\n" % kv for kv in consts.items())
    x = lib.tlc(module, cfg, work, env={"TRACE": f, "DIAG": "1"}, workers=1, timeout=300)
    at = [int(m) for m in re.findall(r'<<"AT", \d+, (\d+)>>', x["out"])]
    return max(at) if at else 0


MCWALK = "SPECIFICATION MCSpec\nINVARIANT Implied\nINVARIANT Path\nINVARIANT Quits\nPROPERTY Ends\n"
# the machine that is implied, by property (combined features: nesting, whatever is combined)
IMPLIED = {p: p for p in ("C01", "C02", "C03", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14")}
IMPLIED["C24"] = "C05"


MCPOOL = "SPECIFICATION MCSpec\nINVARIANT Implied\nINVARIANT Sound\nPROPERTY Ends\n"


def pools(tier):
    """what MCPool explores: the small universe with the sizes of pool and channels"""
    out = []
    for s in small.C16(4 if tier == "quick" else 5):
        for inp in (0, 1, 2):
            for size in (0, 1) if s["opt"].get("output") else (0,):
                out.append(dict(norm.scenario(dict(s, opt=dict(s["opt"], outsize=size)), "root"), inp=inp))
            if not s["opt"].get("output"):
                out.append(dict(out[-1], cancel=True))
    return out


def implied(prop, rows, work, procs=6, timeout=800, module="MCWalk", cfg=MCWALK):
    """check on the universe that the algorithm (Walk, Pool) implies the property's machine"""
    def one(args):
        i, part = args
        f = os.path.join(work, "%s-%d.ndjson" % (module, i))
        lib.ndjson(f, [{"sc": r, "ev": []} for r in part])
        x = lib.tlc(module, cfg + 'CONSTANT Aspect = "%s"\n' % prop, work, env={"TRACE": f}, workers=1, timeout=timeout)
        if x["rc"] != 0 or not x["ok"]:
            raise lib.Infra("TLC does not accept %s for %s:\n%s" % (module, prop, x["out"][-3000:]))
        os.unlink(f)
        return x["distinct"], x["states"]

    with cf.ThreadPoolExecutor(procs) as ex:
        got = list(ex.map(one, enumerate(rows[i::procs] for i in range(procs) if rows[i::procs])))
    return {"model": module, "scenarios": len(rows), "states": sum(a for a, _ in got), "transitions": sum(b for _, b in got)}


class TraceCheck:
    """Random (and enumerated) navigations validated by WalkTrace."""
    module = "WalkTrace"
    group = "walk"
    race = False

    def __init__(self, prop, tier, work, scale, n_quick=2500, n_thorough=20000, models=(), race=False):
        self.race = race
        self.prop, self.tier, self.work = prop, tier, work
        self.n = int((n_quick if tier == "quick" else n_thorough) * scale)
        self.models = models
        self.profile = lambda rng: profiles.scenario(prop, rng)
        self.consts = {"Aspect": '"%s"' % prop}

    def scenarios(self):
        out = []
        for i in range(self.n):
            rng = random.Random("%s/%d/%d" % (self.prop, lib.SEED, i))
            s = self.profile(rng)
            out.append(s)
        self.small = small.universe(self.prop, self.tier)
        return out + self.small + profiles.known().get(self.prop, [])

    def rows(self, scs, got):
        rows = []
        for s in scs:
            ev = got.get(s["id"])
            if ev is None:
                raise lib.Infra("no trace for scenario %d" % s["id"])
            rows.append((s["id"], self.row(s, ev)))
        return rows

    def row(self, s, ev):
        tree, nev = norm.events(s, ev)
        return {"sc": norm.scenario(s, tree), "ev": nev, "alts": norm.alternatives(s, tree)}

    def run(self):
        states = trans = 0
        model_notes = []
        for m in self.models:
            r = m(self)
            states += r["distinct"]
            trans += r["states"]
            model_notes.append({"model": r["name"], "states": r["distinct"], "transitions": r["states"]})
        scs = self.scenarios()
        for g in getattr(self, "generated", ()):
            states += g["states"]
            trans += g["transitions"]
            model_notes.append(g)
        for i, s in enumerate(scs):
            s["id"] = i + 1
        got = record(self, scs, 6)
        rows = self.rows(scs, got)
        if self.prop in IMPLIED:
            mine = {s["id"] for s in self.small}
            scns = [r["sc"] for k, r in rows if k in mine]
            for aspect, part in ((IMPLIED[self.prop], scns),) if self.prop != "C24" else (
                    ("C05", scns), ("C06", [s for s in scns if s["strats"]]), ("C14", [s for s in scns if s["strats"]])):
                r = implied(aspect, part, self.work)
                states += r["states"]
                trans += r["transitions"]
                model_notes.append(r)
        if self.prop == "C16":
            r = implied("C16", pools(self.tier), self.work, module="MCPool", cfg=MCPOOL)
            states += r["states"]
            trans += r["transitions"]
            model_notes.append(r)
        acc, st, tr = validate(self.module, self.consts, rows, self.work)
        by = {s["id"]: s for s in scs}
        viol = []
        for key, row in rows:
            if key not in acc:
                viol.append(self.violation(by[key], got[key], row))
                if len(viol) >= 5:
                    break
        viol = [v for v in viol if v]
        cov = {"states": states + st, "transitions": trans + tr,
               "traces_validated_against_impl": len(rows),
               "events_validated": sum(len(r["ev"]) for _, r in rows), "models": model_notes,
               "accepted": len(acc), "samples": [self.sample(by[rows[0][0]], got)] if rows else []}
        return {"violations": viol, "coverage": cov}

    def sample(self, s, got):
        return {"scenario": s, "trace": got[s["id"]][:40]}

    def violation(self, s, ev, row):
        if any(e["e"] in ("hang", "died") for e in ev):
            # confirm once, alone
            again = record(self, [s], 1, {"timeout": 120})[s["id"]]
            raced = any(e["e"] == "died" and "DATA RACE" in e.get("msg", "") for e in ev)
            if not raced and not any(e["e"] in ("hang", "died") for e in again):
                row = self.row(s, again)
                acc, _, _ = validate(self.module, self.consts, [(1, row)], self.work)
                if acc:
                    return None
                ev = again
        at = diagnose(self.module, self.consts, row, self.work)
        nxt = row["ev"][at] if at < len(row["ev"]) else None
        return {"property": self.prop, "key": s.get("key"), "why": "event %d is not allowed by the specification: %s" % (at + 1, json.dumps(nxt, ensure_ascii=False)),
                "position": at + 1, "event": nxt, "scenario": s, "trace": ev, "seed": lib.SEED}

    def replay(self, doc):
        s = doc["scenario"]
        for _ in range(20 if self.race else 1):
            got = record(self, [s], 1)
            rows = self.rows([s], got)
            acc, st, tr = validate(self.module, self.consts, rows, self.work)
            if not acc:
                break
        v = [] if acc else [self.violation(s, got[s["id"]], rows[0][1])]
        return {"violations": [x for x in v if x], "coverage": {"states": st, "transitions": tr, "traces_validated_against_impl": 1}}


class CompanyCheck(TraceCheck):
    """Navigations made in the company of each other: each is judged on its own, by
    the machine of the property its scenario was drawn for."""
    ASPECTS = ["C01", "C02", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C13", "C14", "C14", "C16", "C16", "C22"]

    def __init__(self, prop, tier, work, scale, n_quick=500, n_thorough=8000):
        super().__init__(prop, tier, work, scale, n_quick=n_quick, n_thorough=n_thorough, race=True)

    def scenarios(self):
        out = []
        for i in range(self.n):
            rng = random.Random("%s/%d/%d" % (self.prop, lib.SEED, i))
            mode = rng.choice(["parallel", "parallel", "nested", "serial"])
            k = rng.randint(2, 6) if mode != "nested" else rng.randint(2, 3)
            members, aspects = [], []
            for _ in range(k):
                sib = profiles.sibling(rng, members[-1]) if members and rng.random() < 0.35 else None
                a = aspects[-1] if sib else rng.choice(self.ASPECTS)
                m = sib or profiles.scenario(a, rng)
                m["id"] = len(members) + 1
                m.pop("still", None)
                members.append(m)
                aspects.append(a)
            out.append({"kind": "company", "mode": mode, "at": rng.randint(1, 6), "shared": rng.random() < 0.5, "members": members,
                        "aspects": aspects, "still": rng.random() < 0.5, "timeout": 60000})
        return out

    def rows(self, scs, got):
        """by aspect: [((scenario, member), row)]"""
        by = {}
        for s in scs:
            ev = got.get(s["id"])
            if ev is None:
                raise lib.Infra("no trace for scenario %d" % s["id"])
            for i, (m, a) in enumerate(zip(s["members"], s["aspects"])):
                mine = [e for e in ev if e["e"] == "member"]
                # the whole process may have come down, or hung
                e = mine[i]["ev"] if i < len(mine) else [x for x in ev if x["e"] != "member"][-1:]
                if not e:
                    continue                                  # (never begun, inside another)
                by.setdefault(a, []).append(((s["id"], i), self.row(m, e)))
        return by

    def judge(self, scs, got):
        by = self.rows(scs, got)
        acc, st, tr, rows = set(), 0, 0, {}
        for a, part in sorted(by.items()):
            x, y, z = validate("WalkTrace", {"Aspect": '"%s"' % a}, part, self.work)
            acc |= x
            st += y
            tr += z
            rows.update({k: (a, r) for k, r in part})
        return acc, st, tr, rows

    def run(self):
        scs = self.scenarios()
        for i, s in enumerate(scs):
            s["id"] = i + 1
        got = record(self, scs, 4)
        acc, st, tr, rows = self.judge(scs, got)
        by = {s["id"]: s for s in scs}
        viol, seen = [], set()
        for k in sorted(rows):
            if k not in acc and k[0] not in seen:
                seen.add(k[0])
                viol.append(self.violation(by[k[0]], got[k[0]], k[1], rows[k]))
                if len(viol) >= 5:
                    break
        viol = [v for v in viol if v]
        cov = {"states": st, "transitions": tr, "traces_validated_against_impl": len(rows),
               "events_validated": sum(len(r["ev"]) for _, r in rows.values()), "models": [], "accepted": len(acc),
               "groups": len(scs), "samples": [self.sample(scs[0], got)]}
        return {"violations": viol, "coverage": cov}

    def violation(self, s, ev, i, ar):
        a, row = ar
        if any(e["e"] in ("hang", "died") for e in row["ev"]) or any(e["e"] in ("hang", "died") for e in ev):
            # once more, alone
            for _ in range(3):
                again = record(self, [s], 1, {"timeout": 200})[s["id"]]
                acc, _, _, rows = self.judge([s], {s["id"]: again})
                bad = [k for k in rows if k not in acc]
                if bad:
                    break
            if not bad and not any(e["e"] == "died" for e in ev):
                return None
        at = diagnose("WalkTrace", {"Aspect": '"%s"' % a}, row, self.work)
        nxt = row["ev"][at] if at < len(row["ev"]) else None
        return {"property": self.prop, "member": i, "aspect": a, "event": nxt, "position": at + 1, "scenario": s, "trace": ev, "seed": lib.SEED,
                "why": "navigation %d, made in the company of others, is not allowed by the specification (as %s) at event %d: %s"
                       % (i + 1, a, at + 1, json.dumps(nxt, ensure_ascii=False)[:1500])}

    def replay(self, doc):
        s = doc["scenario"]
        for _ in range(20):
            got = record(self, [s], 1)
            acc, st, tr, rows = self.judge([s], got)
            bad = sorted(k for k in rows if k not in acc)
            if bad:
                break
        v = [self.violation(s, got[s["id"]], bad[0][1], rows[bad[0]])] if bad else []
        return {"violations": [x for x in v if x], "coverage": {"states": st, "transitions": tr, "traces_validated_against_impl": len(rows)}}


class UnitCheck(TraceCheck):
    """Scenarios whose rows need no renaming, judged by a module of their own."""

    def __init__(self, prop, tier, work, scale, module, fields, group="walk", profile=None, more=(), renorm=None, **kw):
        super().__init__(prop, tier, work, scale, **kw)
        self.module, self.fields, self.consts, self.group, self.more = module, fields, {}, group, more
        self.generated, self.renorm = [], renorm
        if profile:
            self.profile = profile

    def scenarios(self):
        out = super().scenarios()
        for g in self.more:
            out += g(self)
        return out

    def row(self, s, ev):
        if self.renorm:
            ev = self.renorm(ev)
        return {"sc": {f: s[f] for f in self.fields}, "ev": [{k: v for k, v in e.items() if k not in ("stack", "msg", "text")} for e in ev]}


class Many:
    """Several checks that decide one property together."""

    def __init__(self, parts):
        self.parts = parts

    def run(self):
        viol, cov = [], {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_validated": 0, "accepted": 0,
                         "models": [], "samples": [], "parts": []}
        for p in self.parts:
            r = p.run()
            for v in r["violations"]:
                v["part"] = p.module
            viol += r["violations"]
            for k, v in r["coverage"].items():
                cov[k] = cov.get(k, type(v)()) + v
            cov["parts"].append({"module": p.module, "traces": r["coverage"]["traces_validated_against_impl"]})
        return {"violations": viol, "coverage": cov}

    def replay(self, doc):
        for p in self.parts:
            if p.module == doc.get("part"):
                return p.replay(doc)
        return self.parts[0].replay(doc)


def mc(module, body, name=None, workers=4, timeout=600, thorough=None):
    """a TLC run over a model of the specification itself"""
    def go(chk):
        cfg = body if chk.tier == "quick" or thorough is None else thorough
        x = lib.tlc(module, cfg, chk.work, workers=workers, timeout=timeout)
        if not x["ok"] or x["rc"] != 0:
            raise lib.Infra("TLC does not accept %s:\n%s" % (module, x["out"][-3000:]))
        return {"name": name or module, "distinct": x["distinct"], "states": x["states"]}
    return go


def behaviours(module, quick, thorough, make, workers=2, timeout=600):
    """Behaviours that TLC enumerates from a model, to be replayed into the code."""
    def go(chk):
        cfg = quick if chk.tier == "quick" else thorough
        x = lib.tlc(module, cfg, chk.work, workers=workers, timeout=timeout)
        if not x["ok"] or x["rc"] != 0:
            raise lib.Infra("TLC does not accept %s:\n%s" % (module, x["out"][-3000:]))
        gen = [json.loads(json.loads(m)[4:]) for m in re.findall(r'^("GEN .*")$', x["out"], re.M)]
        if not gen:
            raise lib.Infra("TLC printed no behaviours of %s:\n%s" % (module, x["out"][-3000:]))
        chk.generated.append({"model": module, "states": x["distinct"], "transitions": x["states"], "behaviours": len(gen)})
        return [make(g) for g in gen]
    return go


def get(prop, tier, work, scale):
    if prop == "C17":
        return UnitCheck(prop, tier, work, scale, "SetupTrace", ["faults"], n_quick=8000, models=(
            mc("MCSetup", "SPECIFICATION Spec\nINVARIANT Silent\nINVARIANT Fair\nPROPERTY Settles\nCHECK_DEADLOCK FALSE\n"),))
    if prop == "C18":
        return UnitCheck(prop, tier, work, scale, "HooksTrace", ["par", "dir"], group="hooks", profile=units.hooks,
                         n_quick=8000, n_thorough=60000, more=[behaviours("MCHooks", HOOKS_CFG % (3, '{"read", "sort"}'), HOOKS_CFG % (4, '{"dir", "read", "sort"}'), units.hooks_from)])
    if prop == "C19":
        return UnitCheck(prop, tier, work, scale, "NotifyTrace", [], group="notify", profile=units.notes,
                         n_quick=8000, n_thorough=60000, more=[behaviours("MCNotify", NOTES_CFG % (4, ks), NOTES_CFG % (5, ks), units.notes_from)
                                                              for ks in ('{"ascend"}', '{"begin"}', '{"descend"}', '{"end"}', '{"wake"}', '{"sleep"}')]
                         + [behaviours("MCNotify", NOTES_CFG % (3, ks), NOTES_CFG % (4, ks), units.notes_from)
                            for ks in ('{"begin", "end"}', '{"ascend", "descend"}', '{"wake", "sleep"}')])
    if prop == "C21":
        return UnitCheck(prop, tier, work, scale, "BusTrace", ["services"], group="bus", profile=units.bus,
                         n_quick=8000, n_thorough=60000, more=[behaviours("MCBus", BUS_CFG % 3, BUS_CFG % 4, units.bus_from)])
    if prop == "C16":
        return TraceCheck(prop, tier, work, scale, n_quick=2500, race=True)
    if prop == "C23":
        return CompanyCheck(prop, tier, work, scale)
    if prop == "C15":
        return UnitCheck(prop, tier, work, scale, "PersistTrace", [], group="persist", profile=units.persist,
                         n_quick=8000, n_thorough=60000, more=[behaviours("MCPersist", PERSIST_CFG % 3, PERSIST_CFG % 4, units.persist_from)])
    if prop == "C20":
        sets = [([1, 2, 3], 4), ([2, 1, 2, 3], 1), ([3, 2], 2)]
        chains = [([6, 3, 2], []), ([5, 4], [5])]
        return Many([
            UnitCheck(prop, tier, work, scale, "CollTrace", ["what", "order", "anchor"], group="coll", profile=units.coll,
                      n_quick=8000, n_thorough=60000,
                      more=[behaviours("MCColl", COLL_CFG % (3, k + 1), COLL_CFG % (4, k + 1), units.coll_from(o, a)) for k, (o, a) in enumerate(sets)]),
            UnitCheck(prop, tier, work, scale, "ChainTrace", ["order", "seal"], group="chain", profile=units.chain, renorm=units.chain_row,
                      n_quick=8000, n_thorough=60000,
                      more=[behaviours("MCChain", CHAIN_CFG % (3, k + 1), CHAIN_CFG % (4, k + 1), units.chain_from(o, sl))
                            for k, (o, sl) in enumerate(chains)])])
    return TraceCheck(prop, tier, work, scale)
