"""C11: admission and eviction by size."""
import re
import absint as A
import lib
import rules_writes as W
import rules_cap as RC
import checks_maint as CM
from checks_writes import merge
from checks_reads import short
from par import pmap

BASE = dict(removal_notifier="None", notifier="None", key_locks="None", time_to_live="None", invalidator="None")
CONFIGS = [dict(BASE, max_capacity=m, eviction_policy=p) for m, p in (("None", "TinyLfu"), ("Some", "TinyLfu"), ("Some", "Lru"))]


def CFG_NAME(cfg):
    return "%s %s" % (cfg["max_capacity"], cfg["eviction_policy"])


def analyse(P, pid, fn, cfg, stubs, aspects=None, steps=CM.MAX_STEPS):
    res = lib.Result(pid)
    r = RC.CapRule(W.main_map_fields(P), RC.judge_cap, cfg)
    r.aspects = {"cap"}
    r.stubs = stubs
    eng = A.Engine(P, r, lib.BASE_MODELS)
    eng.max_steps = steps
    ex = eng.run(fn, args=CM.arguments(P, eng, fn))
    for e in ex:
        r.close(eng, e.st, e.kind, fn)
    res.cover(eng)
    res.obligations, res.discharged = r.obs, r.good
    res.stats["episodes"] = r.episodes
    res.stats["victims evicted for a newcomer"] = r.victim_removals
    res.stats["evictions for size"] = r.evictions
    res.stats["victims picked"] = r.picked
    res.stats["reads processed"] = r.reads
    res.stats["newcomers admitted"], res.stats["newcomers turned away"] = r.admits, r.rejects
    if r.limits:
        res.stats["below"] = {"%s|%s" % (fn, CFG_NAME(cfg)): [a.a[0] if a.op == "arg" else A.pp(a) for a in frozenset.intersection(*r.limits)]}
    for k, (msg, where, trail) in sorted(r.verdicts.items()):
        res.findings.append(lib.Finding(k, msg, where, trail))
    return res


class DriverRule(RC.CapRule):
    """the maintenance run around the functions that were analysed on their own"""
    writers = roles = {}
    evictors = {}
    due = ()

    def __init__(self, *a, **k):
        RC.CapRule.__init__(self, *a, **k)
        self.homes = set()

    def on(self, eng, st, ev):
        if ev.kind == "call" and ev.name in self.stubs:
            self.stub(eng, st, ev)
        if ev.kind == "call" and "AtomicCell" in ev.name and ev.name.endswith("::store"):
            f = W.base_fld(eng.deref_val(st, ev.args[0]))
            if f in COUNTERS:
                self.store_back(eng, st, f, eng.deref_val(st, ev.args[1]), ev)
        elif ev.kind == "call" and "AtomicCell" in ev.name and re.search(r"::(swap|fetch_\w+|take|compare_exchange)$", ev.name):
            f = W.base_fld(eng.deref_val(st, ev.args[0]))
            if f in COUNTERS:
                self.verdict1(st, "books", False, "counter-other", "a shared counter (%s) is changed by other means than storing the result of the run" % f, ev.fn)
        return RC.CapRule.on(self, eng, st, ev)

    def fresh(self, st):
        return RC.mark(st.ts[1], "state") is None

    def stub(self, eng, st, ev):
        vals = [eng.deref_val(st, a) for a in ev.args]
        if ev.name in self.evictors:
            ok = False
            for i in self.evictors[ev.name]:
                f = RC.lin(vals[i])
                c = f.pop(None)
                got = sorted((RC.leaf_kind(t, None, self.fresh(st)), v) for t, v in f.items() if v)
                ok = ok or c == 0 and got == [("MAX", -1), ("WS", 1)]
            self.verdict1(st, "cap", ok, "excess-arg",
                          "the eviction pass is not told to evict what the weighted size exceeds the maximum capacity by (%s)"
                          % ", ".join(A.pp(vals[i], 2) for i in self.evictors[ev.name]), ev.fn)
            self.setcap(st, "owed", False)
        if ev.name in self.writers:
            self.setcap(st, "owed", True)
        touched = False
        for i, v in enumerate(vals):
            for path in (("counters",), ()):
                x = v
                for p in path:
                    x = (A.field(x, p) if A.isagg(x) else A.N("fld", x, p)) if x is not None else None
                if x is not None and counters(x):
                    cur = st.ts[1]
                    known = RC.mark(cur, "state")
                    if known is None:
                        for f in COUNTERS:
                            w = A.field(x, f) if A.isagg(x) else A.N("fld", x, f)
                            self.verdict1(st, "books", loaded(w, f), "books-start:" + f, "the run does not start from the shared %s (%s)" % (f, A.pp(w, 3)), ev.fn)
                    if ev.args[i].op == "ref":
                        self.homes.add((eng.ref_addr(ev.args[i]), path))
                        touched = True
                    break
        self.dropcap(st, ("excess",))
        if touched:
            self.setcap(st, "state", True)
            self.dropcap(st, ("saved:entry_count", "saved:weighted_size"))
        for r in self.roles.get(ev.name, ()):
            st.ts = st.ts[:1] + (tuple(h for h in st.ts[1] if not (h.op == "mark" and h.a[0] == "did:" + r)) + (A.N("mark", "did:" + r, True),),) + st.ts[2:]

    def store_back(self, eng, st, f, v, ev):
        s = RC.mark(st.ts[1], "state")
        if s is None:
            ok = loaded(v, f)
        else:
            ok = False
            for ad, path in self.homes:
                x = eng.load(st, ad)
                for n in path + (f,):
                    x = (A.field(x, n) if A.isagg(x) else A.N("fld", x, n)) if x is not None else None
                ok = ok or x is v
        self.verdict1(st, "books", ok, "books-end:" + f, "what is stored into the shared %s is not what the run arrived at (%s)" % (f, A.pp(v, 3)), ev.fn)
        h = tuple(x for x in st.ts[1] if not (x.op == "mark" and x.a[0] == "saved:" + f)) + (A.N("mark", "saved:" + f, True),)
        st.ts = st.ts[:1] + (h,) + st.ts[2:]

    def ended(self, st, fn):
        h = st.ts[1]
        if RC.mark(h, "state") is not None:
            for f in COUNTERS:
                self.verdict1(st, "books", RC.mark(h, "saved:" + f) is True, "books-saved:" + f, "the run ends without storing the new value of %s" % f, fn)
        if RC.mark(h, "owed") and self.cfg.get("max_capacity") == "Some":
            self.verdict1(st, "cap", RC.mark(h, "excess") is False, "not-evicted",
                          "after write operations were processed the run ends without an eviction pass although the weighted size was not found to be within the maximum capacity", fn)
        if RC.mark(h, "state") is not None or self.due and not self.early(st):
            for r in self.due:
                self.verdict1(st, "due", RC.mark(h, "did:" + r) is True, "due:" + r, "the run ends without having looked for %s" % DUE[r], fn)

    def early(self, st):
        """nothing is ever kept: maximum capacity zero"""
        for a, v in st.facts.items():
            if a.op == "eq" and v and not isinstance(v, tuple) and any(W.base_fld(x) == "max_capacity" for x in a.a) and any(x is A.K(0) for x in a.a):
                return True
        return False


COUNTERS = ("entry_count", "weighted_size")
DUE = dict(ttl="entries past their time to live", tti="entries past their time to idle", ent="entries past their own expiration (timer wheel)",
           va="entries older than invalidate_all", pred="entries matched by an invalidation predicate")


def counters(x):
    if A.isagg(x):
        return A.field(x, "entry_count") is not None and A.field(x, "weighted_size") is not None
    while x.op == "fld" and x.a[1] == "counters":
        return root_out(x.a[0])
    return False


def root_out(x):
    return x.op in ("out", "phi", "fld")


def loaded(w, f):
    return w.op in ("call", "aload", "pure") and "load" in w.a[0] and any(W.base_fld(y) == f for y in (w.a[1] if isinstance(w.a[1], tuple) else ())) or w.op == "aload" and W.fld_end(w.a[0], f)


def driver(P, res, us, evictors, aspects, configs, roles=None, due=lambda c: (), rule=None):
    roots = [r for r in CM.maint_roots(P)]
    for root in roots:
        stubs = frozenset(u for u in us if u != root)
        writers = {u for u in us if any(W.RECV.search(c) for p in P.closure([u]) for c, _ in CM.direct_calls(P.fns[p]) if c and "WriteOp" in str(P.fns[p]["locals"]))}
        writers = {w for w in writers if "apply" in w or w not in roots}
        n = 0
        for cfg in configs:
            r = (rule or DriverRule)(W.main_map_fields(P), lambda *a: [], cfg)
            r.aspects = set(aspects)
            r.stubs, r.writers, r.evictors, r.roles, r.due = stubs, writers, evictors, roles or {}, due(cfg)
            eng = A.Engine(P, r, lib.BASE_MODELS)
            eng.max_steps = CM.MAX_STEPS
            try:
                ex = eng.run(root, args=CM.arguments(P, eng, root))
            except A.EngineError as e:
                res.bad("engine:" + short(root), "analysis failed: %s" % e, root)
                continue
            for e in ex:
                if e.kind == "ret":
                    r.ended(e.st, root)
            n += r.obs
            res.cover(eng)
            res.obligations += r.obs
            res.discharged += r.good
            for k, (msg, where, trail) in sorted(r.verdicts.items()):
                res.bad("%s:%s" % (k, short(root)), msg, where, trail)
        res.floor("obligations on %s" % short(root), n, 4)


def c11(P, res, tier):
    CM.run(P, res, {"cap"}, CONFIGS, analyse)
    evictors = {}
    for k, args in sorted(res.stats.pop("below", {}).items()):
        fn = k.split("|")[0]
        if fn not in res.sealed:
            continue
        names = A.Engine(P, RC.CapRule(W.main_map_fields(P), None, {}), lib.BASE_MODELS).arg_names(P.fns[fn])
        got = {names.index(a) for a in args if a in names}
        evictors[fn] = evictors.get(fn, got) & got
    for fn, got in sorted(evictors.items()):
        res.ob(bool(got), "evict-limit:" + short(fn), "the amount to evict could not be traced to a parameter of the eviction pass", fn)
    driver(P, res, res.units, evictors, {"cap", "books"}, CONFIGS)
    for k, n in (("victims evicted for a newcomer", 2), ("reads processed", 4), ("evictions for size", 2), ("newcomers admitted", 2), ("newcomers turned away", 2)):
        res.floor(k, res.stats.get(k, 0), n)
