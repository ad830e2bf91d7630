"""C18: what is configured takes effect and is reported."""
import re
import absint as A
import lib
import rules_writes as W
from absint import N, K, NONE, SOME, AGG, isagg, field, subs
from checks_reads import short
from par import pmap

SETTERS = dict(name="name", max_capacity="max_capacity", initial_capacity="initial_capacity", eviction_policy="eviction_policy", weigher="weigher",
               eviction_listener="eviction_listener", async_eviction_listener="eviction_listener", time_to_live="expiration_policy.time_to_live",
               time_to_idle="expiration_policy.time_to_idle", expire_after="expiration_policy.expiry", support_invalidation_closures="invalidator_enabled",
               housekeeper_config="housekeeper_config", clock="clock", segments="num_segments")
EXPFIELDS = ("time_to_live", "time_to_idle", "expiry")
YEARS = 1000 * 365 * 24 * 3600


class ConfRule(W.EffRule):
    stop = ()

    def inline(self, p):
        return "cht" not in p and "frequency" not in p and "hashbrown" not in p

    def model(self, eng, st, ev):
        for a in ev.args or ():
            v = eng.deref_val(st, a)
            if not isinstance(v, A.Node):
                continue
            if isagg(v) and str(v.a[0]).endswith("ops::Range"):
                self.ranges[v] = 1
            if isagg(v) and str(v.a[0]).endswith("cache::Cache") and re.search(r"::(push|push_back|insert|extend|resize_with|write)$", ev.name or ""):
                self.pushed[v] = 1
        return W.EffRule.model(self, eng, st, ev)


def engine(P, steps=200000):
    r = ConfRule(W.main_map_fields(P))
    r.ranges, r.pushed = {}, {}
    e = A.Engine(P, r, lib.BASE_MODELS)
    e.max_steps = steps
    return e


def get(eng, st, v, path):
    for f in path.split("."):
        v = eng.deref_val(st, v)
        if isagg(v):
            v = field(v, f)
            if v is None:
                return None
        else:
            k = N("fld", v, f)
            v = st.heap.get(k, k)
    return eng.deref_val(st, v)


def deep(v, name, seen=None):
    """the value of the field `name` somewhere inside v"""
    seen = set() if seen is None else seen
    if not isinstance(v, A.Node) or v in seen:
        return None
    seen.add(v)
    if isagg(v):
        x = field(v, name)
        if x is not None:
            return x
    for y in v.a:
        for z in (y if isinstance(y, tuple) else (y,)):
            r = deep(z, name, seen)
            if r is not None:
                return r
    return None


def builders(P):
    return [p for p in P.fns if re.search(r"builder::CacheBuilder::<.*>::\w+$", p) and P.fns[p]["kind"] == "fn"]


def template(P, eng, b):
    """(type tag, field names) of the builder the function belongs to"""
    mod = b.split("::builder::")[0]
    for p in P.fns:
        if p.startswith("<" + mod + "::builder::CacheBuilder<") and p.endswith("default::Default>::default"):
            for e in eng.run(p):
                if e.kind == "ret":
                    v = eng.deref_val(e.st, e.val)
                    return v, get(eng, e.st, v, "expiration_policy")
    return None, None


def setters(P, res):
    n = 0
    for p in builders(P):
        m = p.rsplit("::", 1)[1]
        f = P.fns[p]
        ret = f["locals"][0][0]
        if "builder::CacheBuilder" not in ret or f["args"] < 1 or "builder::CacheBuilder" not in f["locals"][1][0]:
            continue
        want = SETTERS.get(m)
        eng = engine(P)
        tmpl, exp = template(P, eng, p)
        if want is None:
            res.note("setter %s is not known to this check" % p) if hasattr(res, "note") else res.sample("unknown setter " + p)
            continue
        names = eng.arg_names(f)
        eng = engine(P)
        ex = eng.run(p)
        res.cover(eng)
        rets = [e for e in ex if e.kind == "ret"]
        res.ob(bool(rets), "setter-return:" + short(p), "the setter never returns", p)
        for e in rets:
            for fld in tmpl.a[2]:
                for sub in EXPFIELDS if fld == "expiration_policy" else (None,):
                    path = fld + ("." + sub if sub else "")
                    got = get(eng, e.st, e.val, path)
                    old = N("arg", names[0])
                    for x in path.split("."):
                        old = N("fld", old, x)
                    n += 1
                    if path == want:
                        arg = N("arg", names[1]) if len(names) > 1 else None
                        ok = got is not None and got is not old and (got is K(1) if arg is None else arg in subs(got) or got.op == "agg")
                        if isagg(got if got is not None else K(0), A.OPT):
                            ok = ok and got.a[1] == "Some"
                        # the plain settings are stored as given
                        if m in ("max_capacity", "time_to_live", "time_to_idle", "initial_capacity", "segments"):
                            ok = ok and got is SOME(arg)
                        if m == "eviction_policy":
                            ok = ok and got is arg
                        res.ob(ok, "setter:%s:%s" % (short(p), path), "%s() does not store what it was given (%s is %s)" % (m, path, A.pp(got, 3) if got is not None else "?"), p)
                    elif fld not in ("cache_type",):
                        res.ob(got is old, "setter-other:%s:%s" % (short(p), path), "%s() also changes %s (to %s)" % (m, path, A.pp(got, 3) if got is not None else "?"), p)
    res.floor("settings checked", n, 200)


def policies(P):
    out = []
    for p in sorted(P.fns):
        if re.search(r"^policy::EvictionPolicy::\w+$", p) and P.fns[p]["args"] == 0:
            eng = engine(P)
            out += [eng.deref_val(e.st, e.val) for e in eng.run(p) if e.kind == "ret"]
    return out


def argset(P, tmpl, on, over):
    """a builder with the given settings present"""
    vals = []
    for f in tmpl.a[2]:
        if f in over:
            vals.append(SOME(over[f]) if f in OPTS else over[f])
        elif f == "expiration_policy":
            exp = field(tmpl, f)
            vals.append(AGG(exp.a[0], exp.a[1], exp.a[2], [SOME(N("arg", x)) if x in on else NONE for x in exp.a[2]]))
        elif f == "invalidator_enabled":
            vals.append(K(1) if f in on else K(0))
        elif f in ("eviction_policy", "housekeeper_config", "clock"):
            vals.append(N("arg", f))
        elif f == "num_segments":
            vals.append(SOME(N("arg", f)))
        elif f == "cache_type":
            vals.append(N("arg", f))
        else:
            vals.append(SOME(N("arg", f)) if f in on else NONE)
    return AGG(tmpl.a[0], tmpl.a[1], tmpl.a[2], vals)


OPTS = ("name", "max_capacity", "initial_capacity", "weigher", "eviction_listener", "time_to_live", "time_to_idle", "expiry", "invalidator_enabled")


def year_bound(st, d):
    """the path has found d to be at most 1000 years"""
    for a, v in st.facts.items():
        if a.op in ("le", "lt") and not isinstance(v, tuple):
            x, y = a.a
            if x is d and v and a.op == "le" and thousand(y) or y is d and not v and thousand(x) and a.op == "lt":
                return True
    return False


def thousand(x):
    if x.op in ("pure", "call") and x.a[0].endswith("from_secs") and x.a[1]:
        k = x.a[1][0]
        return k.op == "k" and k.a[0] == YEARS
    return x.op == "k" and x.a[0] == YEARS


def judge_cache(res, p, on, cfg, cache, hasher, maxcap, st, tag):
    def ob(ok, k, msg):
        res.ob(ok, "build-%s:%s" % (k, short(p)), msg + " (%s)" % tag, p, st.trail())
    inner = cache
    want = dict(weigher=SOME(N("arg", "weigher")) if "weigher" in on else NONE, name=SOME(N("arg", "name")) if "name" in on else NONE,
                max_capacity=maxcap)
    inn = deep(cache, "inner")
    ob(inn is not None and isagg(inn), "inner", "the cache's inner structure could not be found")
    if inn is None or not isagg(inn):
        return
    for k, w in want.items():
        got = field(inn, k)
        ob(got is w, k, "the cache is built with %s = %s instead of %s" % (k, A.pp(got, 4) if got is not None else "?", A.pp(w, 4) if w is not None else "?"))
    exp = field(inn, "expiration_policy")
    for k in EXPFIELDS:
        got = (field(exp, k) if isagg(exp) else None) if exp is not None else None
        ob(got is (SOME(N("arg", k)) if k in on else NONE), k, "the cache is built with %s = %s" % (k, A.pp(got, 4) if got is not None else "?"))
    pol = field(inn, "eviction_policy")
    ob(pol is not None and (pol is cfg["eviction_policy"] or pol in cfg["eviction_policy"].a[3]), "policy", "the eviction policy is not the one configured (%s)" % (A.pp(pol, 3) if pol is not None else "?"))
    clk = field(inn, "clock")
    ob(clk is not None and N("arg", "clock") in subs(clk), "clock", "the clock is not the one configured")
    bh = field(inn, "build_hasher")
    ob(bh is not None and bh is hasher, "hasher", "the cache does not keep the hasher it was given (%s)" % (A.pp(bh, 3) if bh is not None else "?"))
    for k, o in (("removal_notifier", "eviction_listener"), ("key_locks", "eviction_listener"), ("invalidator", "invalidator_enabled")):
        got = field(inn, k)
        ok = isagg(got if got is not None else K(0), A.OPT, "Some" if o in on else "None")
        if ok and k == "removal_notifier" and o in on:
            ok = N("arg", "eviction_listener") in subs(got)
        ob(ok, k, "%s is %s although %s was %s" % (k, A.pp(got, 3) if got is not None else "?", o, "set" if o in on else "not set"))
    # the channels
    pairs = []
    for side in ("read_op_ch", "write_op_ch"):
        rcv = field(inn, side)
        snd = None
        for x in subs(cache):
            if isagg(x) and x is not inn and field(x, side) is not None:
                snd = field(x, side)
        ok = snd is not None and rcv is not None and snd.op == "fld" and rcv.op == "fld" and snd.a[0] is rcv.a[0] and (snd.a[1], rcv.a[1]) == ("0", "1")
        ob(ok, "channel:" + side, "the two ends of %s do not belong to the same channel" % side)
        if ok:
            pairs.append(snd.a[0])
            size = [k.a[0] for k in subs(snd.a[0]) if k.op == "k" and isinstance(k.a[0], int)]
            if maxcap is NONE or maxcap is SOME(K(100)):
                ob(bool(size) and size[0] > 0, "channel-size:" + side, "%s cannot hold anything although the maximum capacity is not zero" % side)
    ob(len(set(pairs)) == len(pairs), "channel-shared", "the read log and the write log are the same channel")
    for k in ("time_to_live", "time_to_idle"):
        if k in on:
            ob(year_bound(st, N("arg", k)), "bound-" + k, "a %s longer than 1000 years is not rejected" % k)


def builds(P, res):
    n = 0
    work = []
    pols = policies(P)
    res.floor("eviction policies", len(pols), 2)
    for p in builders(P):
        if "builder::CacheBuilder" in P.fns[p]["locals"][0][0] or P.fns[p]["args"] < 1 or "builder::CacheBuilder" not in P.fns[p]["locals"][1][0]:
            continue
        eng = engine(P)
        tmpl, exp = template(P, eng, p)
        sets = [frozenset(), frozenset(OPTS)] + [frozenset([o]) for o in OPTS]
        for i, pol in enumerate(pols):
            work += [(p, tmpl, s, {"eviction_policy": pol}) for s in (sets if i == 0 else sets[:2])]
        work += [(p, tmpl, s, {"eviction_policy": pols[0], "max_capacity": K(100)}) for s in sets[1:3]]

    def job(x):
        p, tmpl, on, cfg = x
        r = lib.Result(res.pid)
        f = P.fns[p]
        eng = engine(P)
        names = eng.arg_names(f)
        args = [argset(P, tmpl, on, cfg)] + [N("arg", nm) for nm in names[1:]]
        seg = "SegmentedCache" in f["locals"][0][0]
        k = 0
        if "max_capacity" in cfg:
            on = on | {"max_capacity"}
        total = SOME(cfg.get("max_capacity", N("arg", "max_capacity"))) if "max_capacity" in on else NONE
        tag = "with " + (", ".join(sorted(on)) if len(on) < 5 else "everything set") if on else "with nothing set"
        for e in eng.run(p, args=args):
            if e.kind != "ret":
                continue
            v = eng.deref_val(e.st, e.val)
            hashers = N("arg", names[1]) if len(names) > 1 else None
            if not seg:
                h = hashers or deep(v, "build_hasher")
                judge_cache(r, p, on, cfg, v, h, total, e.st, tag)
                k += 1
            else:
                segs = [x for x in subs(v) if isagg(x) and x.a[0].endswith("cache::Cache")] or list(eng.rule.pushed)
                r.ob(len(segs) == 1, "build-segments:" + short(p), "the segments of the cache are not all built alike (%d shapes, %s)" % (len(segs), tag), p)
                for c in segs:
                    h = hashers or deep(v, "build_hasher")
                    mc = deep(deep(c, "inner"), "max_capacity")
                    judge_cache(r, p, on, cfg, c, h, mc, e.st, tag)
                    if "max_capacity" not in cfg:
                        judge_split(r, p, on, v, mc, tag, eng.rule.ranges)
                    k += 1
        r.cover(eng)
        r.stats["caches built"] = k
        r.ob(k > 0, "build-none:" + short(p), "no cache is built (%s)" % tag, p)
        return r
    from checks_writes import merge
    for st, r in pmap(job, work):
        if st == "err":
            res.bad("engine", "analysis failed: " + r, "")
        else:
            merge(res, r)
    res.floor("caches built", res.stats.get("caches built", 0), 60)


def judge_split(r, p, on, v, mc, tag, ranges):
    """the capacity of a segment is the total divided by the number of segments"""
    inner = field(v, "inner") if isagg(v) else None
    total = deep(v, "desired_capacity") if inner is not None else None
    r.ob(total is (SOME(N("arg", "max_capacity")) if "max_capacity" in on else NONE), "build-total:" + short(p), "the maximum capacity reported by a segmented cache is not the one configured (%s)" % tag, p)
    if "max_capacity" not in on:
        r.ob(mc is NONE, "build-split:" + short(p), "a segment is bounded although no maximum capacity was set (%s)" % tag, p)
        return
    cnt = list({x for x in subs(v) if isagg(x) and x.a[0].endswith("ops::Range")} or ranges)
    hi = field(cnt[0], "end") if len(cnt) == 1 else None
    ok = False
    if isagg(mc, A.OPT, "Some"):
        x = mc.a[3][0]
        while x.op == "cast" or x.op in ("pure", "call") and re.search(r"::(ceil|from|into)$", x.a[0]):
            x = x.a[1][0] if x.op != "cast" else [y for y in x.a if isinstance(y, A.Node)][-1]
        if x.op == "op" and x.a[0] == "Div" or x.op in ("pure", "call") and x.a[0].endswith("div_ceil"):
            a, b = (x.a[1], x.a[2]) if x.op == "op" else x.a[1]
            ok = strip(a) is N("arg", "max_capacity") and strip(b) is hi
        up = any(y.op in ("pure", "call") and re.search(r"::(ceil|div_ceil)$", y.a[0]) for y in subs(mc))
        ok = ok and up
    r.ob(ok, "build-split:" + short(p), "the capacity of a segment is not the total divided by the number of segments, rounded up (%s; %s)" % (A.pp(mc, 5), tag), p)


def strip(x):
    while x.op == "cast":
        x = [y for y in x.a if isinstance(y, A.Node)][-1]
    return x


REPORTS = {"max_capacity": "max_capacity", "time_to_live": "time_to_live", "time_to_idle": "time_to_idle"}


def reports(P, res):
    n = 0
    for p in P.fns:
        m = re.search(r"(sync|future)::(cache::Cache|segment::SegmentedCache)::<K, V, S>::(policy|name|entry_count|weighted_size)$", p)
        if not m or P.fns[p]["kind"] != "fn":
            continue
        eng = engine(P)
        ex = [e for e in eng.run(p) if e.kind == "ret"]
        res.cover(eng)
        seg, what = "Segmented" in m.group(2), m.group(3)
        for e in ex:
            v = eng.deref_val(e.st, e.val)
            n += 1
            if what == "policy":
                for k, f in REPORTS.items():
                    got = field(v, k) if isagg(v) else None
                    end = "desired_capacity" if seg and k == "max_capacity" else f
                    res.ob(got is not None and W.fld_end(got, end), "policy-%s:%s" % (k, short(p)), "policy() reports %s as %s" % (k, A.pp(got, 4) if got is not None else "?"), p)
                ns = field(v, "num_segments") if isagg(v) else None
                ok = ns is K(1) if not seg else ns is not None and ns.op in ("pure", "call") and ns.a[0].endswith("::len") and W.fld_end(ns.a[1][0], "segments")
                res.ob(ok, "policy-segments:" + short(p), "policy() reports the number of segments as %s" % (A.pp(ns, 4) if ns is not None else "?"), p)
            elif what == "name":
                res.ob(W.fld_end(v, "name") or any(x.op == "fld" and x.a[1] == "name" for x in subs(v)), "name:" + short(p), "name() reports %s" % A.pp(v, 4), p)
            elif not seg:
                res.ob(counter(v, what), "count:" + short(p), "%s() reports %s" % (what, A.pp(v, 4)), p)
            else:
                ok = v.op in ("pure", "call") and v.a[0].endswith("::sum") and len(v.a[1]) == 1 and v.a[1][0].op == "adapt" and v.a[1][0].a[0] == "map"
                if ok:
                    ad = v.a[1][0]
                    src = ad.a[1]
                    ok = counter(ad.a[2], what) and (src.op in ("pure", "call") and src.a[0].endswith("::iter") and W.fld_end(src.a[1][0], "segments"))
                elif v.op == "phi" or v.op == "op":
                    ok = None
                res.ob(ok is not False, "sum:" + short(p), "%s() of a segmented cache is not the sum over all of its segments (%s)" % (what, A.pp(v, 6)), p)
    res.floor("reports checked", n, 12)
    # accessors of Policy
    for p in P.fns:
        m = re.search(r"^policy::Policy::(max_capacity|num_segments|time_to_live|time_to_idle)$", p)
        if m:
            eng = engine(P)
            for e in eng.run(p):
                if e.kind == "ret":
                    v = eng.deref_val(e.st, e.val)
                    res.ob(v.op == "fld" and v.a[1] == m.group(1) and v.a[0].op == "arg", "policy-get:" + m.group(1), "Policy::%s() returns %s" % (m.group(1), A.pp(v, 3)), p)
        m = re.search(r"^policy::EvictionPolicy::(lru|tiny_lfu)$", p)
        if m:
            eng = engine(P)
            for e in eng.run(p):
                if e.kind == "ret":
                    v = eng.deref_val(e.st, e.val)
                    w = {"lru": "Lru", "tiny_lfu": "TinyLfu"}[m.group(1)]
                    res.ob(any(isagg(x) and x.a[1] == w for x in subs(v)), "policy-kind:" + m.group(1), "EvictionPolicy::%s() is %s" % (m.group(1), A.pp(v, 3)), p)


def counter(v, what):
    return v.op in ("call", "pure", "aload") and any(W.fld_end(x, what) for x in (v.a[1] if isinstance(v.a[1], tuple) else v.a) if isinstance(x, A.Node)) and (v.op == "aload" or v.a[0].endswith("::load"))


def plain(P, res):
    """Cache::new and SegmentedCache::new: the maximum capacity and nothing else"""
    n = 0
    for p in P.fns:
        m = re.search(r"(sync|future)::(cache::Cache|segment::SegmentedCache)::<K, V>::new$", p)
        if not m:
            continue
        eng = engine(P)
        for e in eng.run(p):
            if e.kind != "ret":
                continue
            v = eng.deref_val(e.st, e.val)
            names = eng.arg_names(P.fns[p])
            inns = [x for x in subs(v) if isagg(x) and field(x, "expiration_policy") is not None]
            inns = inns or [x for c in eng.rule.pushed for x in subs(c) if isagg(x) and field(x, "expiration_policy") is not None]
            res.ob(bool(inns), "new:" + short(p), "the cache's inner structure could not be found", p)
            for inn in inns:
                n += 1
                cap = field(inn, "max_capacity") if "Segmented" not in p else deep(v, "desired_capacity")
                res.ob(cap is SOME(N("arg", names[0])), "new-capacity:" + short(p), "new(max_capacity) builds a cache with maximum capacity %s" % A.pp(cap, 4), p)
                exp = field(inn, "expiration_policy")
                for k in EXPFIELDS:
                    res.ob(isagg(exp) and field(exp, k) is NONE, "new-exp:" + short(p), "new(max_capacity) builds a cache with an expiration policy (%s)" % k, p)
                for k in ("weigher", "removal_notifier", "key_locks", "invalidator"):
                    x = field(inn, k)
                    res.ob(x is None or x is NONE, "new-%s:%s" % (k, short(p)), "new(max_capacity) builds a cache with %s" % k, p)
    res.floor("plain constructors", n, 3)


def c18(P, res, tier):
    setters(P, res)
    builds(P, res)
    reports(P, res)
    plain(P, res)
