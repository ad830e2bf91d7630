"""C19: an operation on a key concerns that key, in the one segment that is responsible for it."""
import re
import absint as A
import lib
import rules_writes as W
import rules_flight as F
from absint import N, K, NONE, SOME, isagg, field, subs
from checks_reads import short, each_segment
from moka_models import is_cht
from par import pmap

SAME = re.compile(r"::(to_owned|clone|new|from|into|borrow|as_ref|deref|pin|cloned|unwrap)$")
TABLES = {"waiters": "the waiter table", "locks": "the key lock table"}


def bare(x):
    """the key inside wrappers that keep its identity"""
    while True:
        if x.op in ("pure", "call") and len(x.a[1]) == 1 and SAME.search(x.a[0]):
            x = x.a[1][0]
        elif x.op == "fld" and x.a[1] in ("ref_key", "owned_key"):
            return N("arg", "key")
        elif isagg(x) and x.a[1] is None and len(x.a[3]) == 1:
            x = x.a[3][0]
        else:
            return x


def is_hash(x, keys):
    """x is the hash of one of the keys by the cache's hasher, or was handed in as such"""
    if x.op == "arg" and x.a[0] == "hash" or x.op == "fld" and x.a[1] == "hash" and x.a[0].op == "arg":
        return True
    if x.op in ("pure", "call") and x.a[0].endswith("hash_one") and len(x.a[1]) == 2:
        return any(y.op == "fld" and y.a[1] == "build_hasher" for y in (x.a[1][0],)) and bare(x.a[1][1]) in keys
    return False


class KeyRule(W.EffRule):
    """ts is empty: only the arguments of the table operations matter"""
    cht_retries = False

    def __init__(self, mf, keys):
        W.EffRule.__init__(self, mf)
        self.keys = keys
        self.ops = {}

    def add(self, st, *e):
        pass

    def on(self, eng, st, ev):
        if ev.kind != "lookup" or len(ev.vals) < 3:
            return None
        m = ev.name
        tab = eng.deref_val(st, ev.vals[0])
        ins = m.startswith("insert")
        if ins:
            k, h = eng.deref_val(st, ev.vals[1]), eng.deref_val(st, ev.vals[2])
            eqs = [k]
        else:
            h = eng.deref_val(st, ev.vals[1])
            fn = eng.P.fns.get(ev.fn)
            x = N("chtkey", ev.site)
            eqs = []
            for r in eng.call_value(st.copy(), ev.vals[2], [x], ev.fid, ev.blk, ev.ln, "eq", ev.fn, fn):
                s2, v = (r.st, r.val) if hasattr(r, "st") else r
                v = eng.deref_val(s2, v)
                eqs.append(eq_of(v, x))
        self.ops[(m, tab, h, tuple(eqs), ev.fn)] = (ev.loc(eng), ev.fn)
        return None


def eq_of(v, x):
    """the term that the closure compares the stored key x with"""
    if v.op in ("pure", "call") and len(v.a[1]) == 2 and re.search(r"::(equivalent|eq)$", v.a[0]) or v.op == "eq":
        a, b = (v.a[1] if v.op != "eq" else v.a)[:2]
        if strip(b) is x:
            return a
        if strip(a) is x:
            return b
    return None


def strip(x):
    while x.op in ("pure", "call") and len(x.a[1]) == 1 and SAME.search(x.a[0]):
        x = x.a[1][0]
    return x


def keyed(P):
    """public operations of the caches and selectors that name a key"""
    out = []
    for p, f in P.fns.items():
        if f["kind"] != "fn" or not f.get("reach") or not re.match(r"(sync|future)::(cache::Cache|segment::SegmentedCache|entry_selector::\w+)::<", p):
            continue
        m = p.rsplit("::", 1)[1]
        names = A.Engine(P, A.Rule(), []).arg_names(f)
        if "key" in names or "EntrySelector::<" in p and f["args"] and names[0] == "self":
            out.append(p)
    return sorted(out)


def judge_ops(r, p, ops):
    n = 0
    keys = (N("arg", "key"),)
    for (m, tab, h, eqs, fn), (loc, _) in sorted(ops.items(), key=repr):
        base = tab.a[1] if tab.op == "fld" else None
        n += 1
        if base in TABLES:
            what = TABLES[base]
            # the table's key: the cache key, or a tuple that holds it
            if base == "waiters":
                for k in eqs:
                    ok = k is not None and isagg(k) and k.a[0] == "tuple" and bare(k.a[3][0]) in keys
                    r.ob(ok, "table-key:%s" % short(p), "%s looks up %s under %s" % (short(p), what, A.pp(k, -4) if k is not None else "an unknown key"), loc)
                    hk = h.a[1][1] if h.op in ("pure", "call") and len(h.a[1]) == 2 else None
                    r.ob(ok and hk is not None and h.a[1][0] is tab and bare_t(hk) == bare_t(k), "table-hash:%s" % short(p), "%s searches %s with the hash %s for the key %s" % (short(p), what, A.pp(h, -5), A.pp(k, -4) if k is not None else "?"), loc)
            else:
                for k in eqs:
                    r.ob(k is not None and bare(k) in keys, "table-key:%s" % short(p), "%s looks up %s under %s" % (short(p), what, A.pp(k, -4) if k is not None else "an unknown key"), loc)
                hk = h.a[1][1] if h.op in ("pure", "call") and len(h.a[1]) == 2 else None
                r.ob(hk is not None and h.a[1][0] is tab and bare(hk) in keys or is_hash(h, keys), "table-hash:%s" % short(p), "%s searches %s with the hash %s" % (short(p), what, A.pp(h, -5)), loc)
            continue
        for k in eqs:
            r.ob(k is not None and bare(k) in keys, "key:%s:%s" % (m, short(p)), "%s looks for the key %s instead of the one it was given" % (short(p), A.pp(k, -4) if k is not None else "(unknown comparison)"), loc)
        r.ob(is_hash(h, keys), "hash:%s:%s" % (m, short(p)), "%s searches the cache with the hash %s, which is not that of its key" % (short(p), A.pp(h, -5)), loc)
    return n


def bare_t(t):
    if isagg(t) and t.a[0] == "tuple":
        return tuple(bare(x) for x in t.a[3])
    return bare(t)


def tables(P, res, *_):
    roots = [p for p in keyed(P) if "Segmented" not in p]
    mf = W.main_map_fields(P)

    def job(p):
        r = lib.Result(res.pid)
        rule = KeyRule(mf, ())
        eng = A.Engine(P, rule, lib.BASE_MODELS)
        eng.run(p)
        r.cover(eng)
        ops = rule.ops
        r.stats["table operations"] = judge_ops(r, p, ops)
        return r
    from checks_writes import merge
    for p, (st, r) in zip(roots, pmap(job, roots)):
        if st == "err":
            res.bad("engine:" + short(p), "analysis failed: " + r, p)
        else:
            merge(res, r)
    res.floor("table operations", res.stats.get("table operations", 0), 100)
    res.floor("keyed operations", len(roots), 60)


class SegRule(lib.BaseRule):
    """inside the segmented cache: what is asked of which segment"""
    indexed = True
    stop = ("sync::cache::", "base_cache", "value_initializer", "housekeeper", "entry_selector")

    def __init__(self):
        self.calls = []

    def track(self, atom):
        return atom.op in ("eq", "le", "lt", "bool")

    def init(self):
        return (False,)

    def model(self, eng, st, ev):
        n = ev.name or ""
        if re.search(r"slice::.*::get(_unchecked)?$|::index$", n) and len(ev.args) == 2:
            b, i = eng.deref_val(st, ev.args[0]), eng.deref_val(st, ev.args[1])
            if W.fld_end(b, "segments"):
                return [(st, N("idx", b, i) if not n.endswith("::get") else SOME(N("idx", b, i)))]
        if re.search(r"::(cache::Cache|entry_selector::\w+)::<", n) and n in eng.P.fns:
            self.calls.append((n, [eng.deref_val(st, a) for a in ev.args], st, ev.loc(eng)))
            st.ts = (True,)
        return None


def segments(P, res, *_):
    """every keyed operation of the segmented cache goes, with the hash of its key, to the segment chosen by that hash"""
    forms = {}
    n = 0
    key = N("arg", "key")
    for p in keyed(P):
        if "SegmentedCache" not in p:
            continue
        rule = SegRule()
        eng = A.Engine(P, rule, lib.BASE_MODELS)
        ex = eng.run(p)
        res.cover(eng)
        for e in ex:
            if e.kind == "ret":
                res.ob(e.st.ts[0], "forward:" + short(p), "a path of %s returns without asking any segment" % short(p), p, e.st.trail())
        for name, args, st, loc in rule.calls:
            n += 1
            f = P.fns[name]
            pn = A.Engine(P, A.Rule(), []).arg_names(f)
            seg = [x for a in args for x in subs(a) if x.op == "idx" and W.fld_end(x.a[0], "segments")]
            res.ob(bool(seg), "segment:" + short(p), "%s calls %s on something that is not one of its segments" % (short(p), short(name)), loc, st.trail())
            hs = None
            for i, a in enumerate(args):
                ty = f["locals"][i + 1][0]
                if ty == "u64":
                    hs = a
                    res.ob(is_hash(a, (key,)) and a.op != "arg", "seghash:" + short(p), "%s passes %s as the hash of its key" % (short(p), A.pp(a, -4)), loc, st.trail())
                if pn[i] in ("key", "owned_key", "ref_key"):
                    res.ob(bare(a) is key, "segkey:" + short(p), "%s passes the key %s on" % (short(p), A.pp(a, -4)), loc, st.trail())
            if "key" in pn or "owned_key" in pn or "ref_key" in pn:
                res.ob(hs is not None, "nohash:" + short(p), "%s asks a segment by key without the hash that chose it" % short(p), loc)
            for s in seg:
                if len(s.a) < 2:
                    res.bad("segidx:" + short(p), "the index of the segment used by %s is unknown" % short(p), loc)
                    continue
                i = s.a[1]
                hv = [x for x in subs(i) if is_hash(x, (key,))]
                rest = leaves(i, set(hv))
                res.ob(all(ok_leaf(x) for x in rest), "segidx:" + short(p), "%s selects a segment by %s" % (short(p), A.pp(i, -5)), loc, st.trail())
                facts = frozenset((canon(a, hv), v if not isinstance(v, tuple) else repr(v)) for a, v in st.facts.items() if any(x.op == "fld" and x.a[1] not in ("segments",) and "inner" in A.pp(x, -4) for x in subs(a)) and not any(x.op == "arg" and x.a[0] != "self" for x in subs(a)))
                forms.setdefault(p, set()).add((canon(i, hv), facts))
    if forms:
        cnt = {}
        for p, s in forms.items():
            cnt.setdefault(frozenset(s), []).append(p)
        top = max(cnt.values(), key=len)
        for s, ps in cnt.items():
            for p in ps:
                res.ob(ps is top, "segform:" + short(p), "%s does not select the segment as %d other operations do (%s)" % (short(p), len(top), sorted(A.pp(x[0], -5) for x in s)), p)
        # more than one way to select must be told apart by the hash or by the configuration
        dep = any(any(x is N("arg", "#hash") for x in subs(i)) for i, _ in forms[top[0]])
        res.ob(dep, "segdep", "the segment does not depend on the hash of the key", top[0])
    res.floor("calls to segments", n, 15)


def canon(t, hv):
    return swap(t, {h: N("arg", "#hash") for h in hv})


def swap(t, m):
    if isinstance(t, tuple):
        return tuple(swap(x, m) for x in t)
    if not isinstance(t, A.Node):
        return t
    return m[t] if t in m else N(t.op, *[swap(x, m) for x in t.a])


def leaves(t, cut, out=None):
    out = [] if out is None else out
    if t in cut:
        return out
    if t.op == "fld" or not any(isinstance(y, A.Node) for x in t.a for y in (x if isinstance(x, tuple) else (x,))):
        out.append(t)
        return out
    for x in t.a:
        for y in (x if isinstance(x, tuple) else (x,)):
            if isinstance(y, A.Node):
                leaves(y, cut, out)
    return out


def ok_leaf(x):
    if x.op == "k":
        return True
    while x.op == "fld":
        x = x.a[0]
    return x is N("arg", "self")


def selectors(P, res, *_):
    """entry() and entry_by_ref(): the selector carries the key and its hash"""
    n = 0
    key = N("arg", "key")
    for p in sorted(P.fns):
        if P.fns[p]["kind"] != "fn" or not re.search(r"(cache::Cache|SegmentedCache)::<K, V, S>::entry(_by_ref)?$", p):
            continue
        eng = A.Engine(P, KeyRule(W.main_map_fields(P), ()), lib.BASE_MODELS)
        for e in eng.run(p):
            if e.kind != "ret":
                continue
            v = eng.deref_val(e.st, e.val)
            n += 1
            ok = isagg(v)
            k = [x for x in v.a[3] if bare(eng.deref_val(e.st, x)) is key] if ok else []
            res.ob(len(k) == 1, "entry-key:" + short(p), "%s builds a selector without its key" % short(p), p)
            h = [eng.deref_val(e.st, field(v, "hash"))] if ok and field(v, "hash") is not None else []
            res.ob(len(h) == 1 and is_hash(h[0], (key,)) and h[0].op != "arg", "entry-hash:" + short(p), "%s builds a selector with the hash %s" % (short(p), A.pp(h[0], -4) if h else "?"), p)
        res.cover(eng)
    res.floor("selectors built", n, 6)


def every_segment(P, res, *_):
    def ran(eng, st, ev):
        return ev.kind == "call" and re.search(r"cache::Cache::<.*>::run_pending_tasks$", ev.name or "") is not None
    for p in sorted(P.fns):
        if re.search(r"SegmentedCache::<K, V, S>::run_pending_tasks$", p):
            each_segment(P, res, p, ran, "runs its pending tasks", inl=lambda q: "sync::cache::Cache" not in q)


def c19(P, res, tier):
    segments(P, res)
    selectors(P, res)
    every_segment(P, res)
    tables(P, res)
