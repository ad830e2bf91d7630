"""C09, C10 (and the maintenance half of C07/C08): what maintenance does to the map and its books."""
import os
import re
import sys
import absint as A
import lib
import rules_writes as W
import rules_maint as MR
import maint_judge as J
from par import pmap
from checks_writes import mutators, merge, direct_calls
from checks_reads import short

CONFIGS = [dict(removal_notifier=n, notifier=n, key_locks=n, time_to_live=t, invalidator=i)
           for n in ("Some", "None") for t, i in (("None", "None"), ("Some", "None"), ("None", "Some"))]
MAX_STEPS = 1500000
CLIMB_STEPS = 400000
CH = re.compile(r"::\{closure#\d+\}")


def base_fn(p):
    return CH.sub("", p)


def maint_roots(P):
    return [p for p in P.fns if re.search(r"::do_run_pending_tasks$", p) and P.fns[p]["kind"] == "fn" and ("base_cache" in p)]


def units(P, res):
    """Functions of the maintenance run in which an entry is removed from the map, taken
    from the write log, or taken out of a list of removed entries."""
    roots = maint_roots(P)
    res.floor("maintenance entry points", len(roots), 2)
    cl = P.closure(roots)
    muts = mutators(P, res)
    out = set()
    for p in cl:
        f = P.fns[p]
        if "::cht::" in p or p.startswith("cht::") or "notifier" in p:
            continue
        hit = p in muts
        for c, args in direct_calls(f):
            if c and W.RECV.search(c):
                hit = True
            if c and c.endswith("::next") and "IntoIter" in c or c and "IntoIterator" in c:
                if any("KvEntry" in l[0] and ("IntoIter" in l[0]) for l in f["locals"]):
                    hit = True
        if hit:
            out.add(base_fn(p))
    return sorted(out), cl, roots


INSTANT = re.compile(r"(^|::)Instant$")


def instants(P, fn):
    """positions of the parameters that carry a point in time"""
    f = P.fns[fn]
    return [i for i in range(f["args"]) if INSTANT.search(f["locals"][i + 1][0])]


def arguments(P, eng, fn):
    """A time passed in is taken for a reading of the clock; `times_passed` checks that of
    every caller."""
    names = eng.arg_names(P.fns[fn])
    ts = set(instants(P, fn))
    return [A.N("now", ("param", n)) if i in ts else A.N("arg", n) for i, n in enumerate(names)]


class PassRule(MR.MaintRule):
    """the times passed to the given functions are readings of the clock"""
    watch = {}
    hits = 0

    def on(self, eng, st, ev):
        if ev.kind == "call" and ev.name in self.watch:
            for i in self.watch[ev.name]:
                self.hits += 1
                v = eng.deref_val(st, ev.args[i])
                self.verdicts.setdefault("time-arg:%s" % short(base_fn(ev.name)), ("the point in time passed to it is not a reading of the clock (%s)" % A.pp(v, 3), ev.fn, [])) if v.op != "now" else None
        return MR.MaintRule.on(self, eng, st, ev)


def times_passed(P, res, fns, us, aspects, configs):
    plain = {}

    def unneeded(f):
        """the function is in order whatever time it is given"""
        if f not in plain:
            plain[f] = not any(analyse(P, res.pid, f, c, frozenset(), aspects, times=False).findings for c in configs)
        return plain[f]
    todo = sorted(f for f in fns if instants(P, f))
    done = set()
    while todo:
        f = todo.pop()
        if f in done:
            continue
        done.add(f)
        for c in callers_of(P, f, {base_fn(p) for p in P.fns}):
            r = PassRule(W.main_map_fields(P), lambda *a: [], {})
            r.aspects = frozenset()
            r.stubs = frozenset(u for u in us if u != c) | {f}
            r.watch = {f: instants(P, f)}
            eng = A.Engine(P, r, lib.BASE_MODELS)
            eng.max_steps = CLIMB_STEPS
            try:
                eng.run(c, args=arguments(P, eng, c))
            except A.EngineError as e:
                res.bad("engine", "the times passed by this function could not be determined: %s" % e, c)
                continue
            res.cover(eng)
            res.obligations += r.hits
            res.discharged += r.hits - len(r.verdicts)
            if not r.hits:
                res.bad("engine", "no call of %s was seen" % f, c)
            if r.verdicts and f in us and unneeded(f):
                continue
            for k, (msg, where, trail) in sorted(r.verdicts.items()):
                res.findings.append(lib.Finding(k, msg, where, trail))
            if instants(P, c):
                todo.append(c)


def analyse(P, pid, fn, cfg, stubs, aspects, steps=MAX_STEPS, times=True):
    res = lib.Result(pid)
    r = MR.MaintRule(W.main_map_fields(P), J.judge, cfg)
    r.aspects = aspects
    r.stubs = stubs
    eng = A.Engine(P, r, lib.BASE_MODELS)
    eng.max_steps = steps
    ex = eng.run(fn, args=arguments(P, eng, fn) if times else None)
    for e in ex:
        r.close(eng, e.st, e.kind, fn)
    res.cover(eng)
    res.obligations, res.discharged = r.obs, r.good
    res.stats["episodes"] = r.episodes
    res.stats["selections"] = r.selected
    for k, (msg, where, trail) in sorted(r.verdicts.items()):
        res.findings.append(lib.Finding(k, msg, where, trail))
    res.has_drive = r.episodes
    return res


def callers_of(P, fn, within):
    out = set()
    fam = {p for p in P.fns if base_fn(p) == fn}
    for p in fam:
        for c in P.callers.get(p, ()):
            b = base_fn(c)
            if b != fn and b in within:
                out.add(b)
    return sorted(out)


def run(P, res, aspects, configs=CONFIGS, analyse=None):
    analyse = analyse or globals()["analyse"]
    us, cl, roots = units(P, res)
    within = {base_fn(p) for p in cl}
    sealed, failed = set(), {}
    level = {u: (u, frozenset([u])) for u in us}
    eps = 0
    done = {}

    def job(x):
        fn, cfg, stubs, steps = x
        try:
            return analyse(P, res.pid, fn, cfg, stubs, aspects, steps)
        except A.EngineError as e:
            r = lib.Result(res.pid)
            r.bad("engine", "analysis failed: %s" % e, fn)
            return r
    work = {u: frozenset([u]) for u in us}      # function -> chain of functions to look into
    rounds = 0
    while work and rounds < 6:
        rounds += 1
        jobs = []
        for fn, chain in sorted(work.items()):
            stubs = frozenset(u for u in us if u not in chain and u != fn)
            # a unit reached from another one is analysed inside it as well
            inner = {base_fn(p) for p in P.closure([fn])}
            if rounds == 1:
                stubs = frozenset()
            else:
                stubs = frozenset(u for u in stubs if u in sealed)
            jobs += [(fn, c, stubs, MAX_STEPS if rounds == 1 else CLIMB_STEPS) for c in configs]
        got = {}
        for (fn, cfg, stubs, _), (st, r) in zip(jobs, pmap(job, jobs)):
            if st == "err":
                rr = lib.Result(res.pid)
                rr.bad("engine", "analysis failed: " + r, fn)
                r = rr
            got.setdefault(fn, []).append(r)
        nxt = {}
        for fn, rs in sorted(got.items()):
            bad = [f for r in rs for f in r.findings]
            if not bad:
                sealed.add(fn)
                for r in rs:
                    merge(res, r)
                continue
            ups = callers_of(P, fn, within)
            ups = [u for u in ups if u not in sealed]
            failed[fn] = (rs, work[fn])
            if not ups or fn in roots:
                continue
            for u in ups:
                nxt[u] = nxt.get(u, frozenset()) | work[fn] | {u}
        done.update({fn: None for fn in got})
        work = {f: c for f, c in nxt.items() if f not in done}

    # a failed function is excused only if every caller chain ends in a sealed function
    def excused(fn, seen=()):
        if fn in sealed:
            return True
        if fn in seen or fn in roots:
            return False
        ups = callers_of(P, fn, within)
        return bool(ups) and all(excused(u, seen + (fn,)) for u in ups)
    if os.environ.get("DBG"):
        for fn, (rs, chain) in sorted(failed.items()):
            print("FAILED", fn, [(f.key, f.msg[:150]) for r in rs for f in r.findings][:6], file=sys.stderr)
    n, below = 0, []
    for fn, (rs, chain) in sorted(failed.items()):
        if excused(fn):
            continue
        # report it at the highest level that was tried and could be analysed
        ups = [u for u in callers_of(P, fn, within) if u in failed and not any(f.key == "engine" for r in failed[u][0] for f in r.findings)]
        if ups:
            continue
        for r in rs:
            for f in r.findings:
                if f.key == "engine" and len(chain) > 1:
                    below.append((fn, f))
                    continue
                n += 1
                res.bad("%s:%s" % (f.key, short(fn)), f.msg, f.where or fn, f.trail)
    if not n:
        for fn, f in below:
            res.bad("%s:%s" % (f.key, short(fn)), f.msg, f.where or fn, f.trail)
    if "reason" in aspects:
        times_passed(P, res, sealed, us, aspects, configs)
    res.floor("maintenance functions that remove entries or process the write log", len(us), 12)
    res.sample("units: " + ", ".join(short(u) for u in us))
    res.units, res.sealed = us, sealed
    res.sample("sealed: " + ", ".join(short(u) for u in sorted(sealed)))


def c09(P, res, tier):
    run(P, res, {"reason", "dirty", "notify"})


def c08_maint(P, res):
    run(P, res, {"lock"}, [c for c in CONFIGS if c["key_locks"] == "Some"])


def c10(P, res, tier):
    run(P, res, {"acct", "timer", "order", "gen"})
