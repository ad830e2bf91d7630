"""C06-C08, C12, C25: what a user-facing write does, path by path."""
import re
import absint as A
import lib
import rules_writes as W
import rules_reads as R
from par import pmap
from absint import N, NONE, isagg, subs, field, K
from lib import has_fld
from checks_reads import short, roots_named, direct_calls, field_trace

MUT = ("ins", "rep", "rem")


def cfg(st, name):
    """variant fact of a configuration option on this path: 'Some' / 'None' / None"""
    for a, v in st.facts.items():
        if a.op == "var" and W.base_fld(a.a[0]) == name:
            return v
    return None


def simple_roots(P):
    rs = roots_named(P, ["insert", "invalidate", "remove"])
    return rs


class Path:
    """One path of a write operation, ready for evaluation."""

    def __init__(self, root, e, eng):
        self.root = root
        self.kind = e.kind
        self.ts = e.st.ts
        self.val = e.val
        self.trail = e.st.trail()
        self.cfg = {n: cfg(e.st, n) for n in ("removal_notifier", "key_locks", "expiry", "weigher")}
        self.eng = eng

    def idx(self, *kinds):
        return [i for i, e in enumerate(self.ts) if e[0] in kinds]

    def first(self, *kinds):
        x = self.idx(*kinds)
        return x[0] if x else None

    def key(self, what):
        return "%s:%s" % (what, short(self.root))

    def steps(self):
        return list(self.trail) + W.show(self.ts)


_memo = {}


def paths(P, res, roots, wanted=None, cancel=False, labels=False, extra_stop=(), deadlines=False):
    """[(root, [Path])]"""
    def one(root):
        r = W.EffRule(W.main_map_fields(P), wanted=wanted, cancel=cancel and "future::" in root, extra_stop=extra_stop)
        r.labels = labels
        r.deadlines = deadlines
        eng = A.Engine(P, r, lib.BASE_MODELS)
        ex = eng.run(root)
        out = []
        for e in ex:
            p = Path(root, e, None)
            out.append(p)
        return out, sorted(eng.visited_fns), eng.visited_calls, eng.steps
    out = []
    for root, (st, r) in zip(roots, pmap_nodes(one, roots)):
        if st == "err":
            res.bad("engine:" + short(root), "analysis failed: " + r, root)
            continue
        ps, fns, calls, steps = r
        res.fns |= set(fns)
        res.stats["calls analysed"] = res.stats.get("calls analysed", 0) + calls
        res.stats["block visits"] = res.stats.get("block visits", 0) + steps
        for k in ("ret", "cancel"):
            res.stats["paths ending in " + k] = res.stats.get("paths ending in " + k, 0) + len([1 for p in ps if p.kind == k])
        res.stats["paths"] = res.stats.get("paths", 0) + len(ps)
        out.append((root, ps))
    return out


def pmap_nodes(f, xs):
    """Terms are hash-consed per process: evaluate here, in order."""
    out = []
    for x in xs:
        try:
            out.append(("ok", f(x)))
        except A.EngineError as e:
            out.append(("err", str(e)))
    return out


def per_root(P, res, roots, judge, **kw):
    """judge(path) -> list of (ok, key, message); evaluated in worker processes."""
    def one(root):
        res2 = lib.Result(res.pid)
        for _, ps in paths(P, res2, [root], **kw):
            for p in ps:
                for ok, key, msg in judge(p):
                    res2.ob(ok, key, msg, root, [] if ok else p.steps())
        return res2
    for root, (st, r) in zip(roots, pmap(one, roots)):
        if st == "err":
            res.bad("engine:" + short(root), "analysis failed: " + r, root)
            continue
        merge(res, r)


def merge(res, r):
    res.obligations += r.obligations
    res.discharged += r.discharged
    have = {f.key for f in res.findings}
    for f in r.findings:
        if f.key not in have:
            res.findings.append(f)
    res.fns |= r.fns
    for k, v in r.stats.items():
        if isinstance(v, dict):
            res.stats[k] = dict(res.stats.get(k, {}), **v)
            continue
        res.stats[k] = res.stats.get(k, 0) + v if isinstance(v, (int, float)) else v
    for s in r.samples:
        res.sample(s)


def info_of(entry):
    """EntryInfo of an entry term (aggregate or looked-up)."""
    if isagg(entry):
        return field(entry, "info")
    return N("fld", entry, "info")


def value_of(entry):
    if isagg(entry):
        return field(entry, "value")
    return N("fld", entry, "value")


def is_weight(w, key, value):
    if w is K(1):
        return True
    return w.op == "call" and w.a[0] == "<user>" and has_fld(w.a[1][0], "weigher") and w.a[1][1] is key and w.a[1][2] is value


# --------------------------------------------------------------------------- C06
def op_matches(m, op):
    """-> list of (ok, what) comparing a write op with the map mutation it reports"""
    out = []
    var = op.a[1]
    if m[0] in ("ins", "rep"):
        key, new, h = m[1], m[-2], m[-1]
        out.append((var == "Upsert", "kind"))
        if var != "Upsert":
            return out
        kh = field(op, "key_hash")
        out.append((isagg(kh) and field(kh, "key") is key, "key"))
        out.append((isagg(kh) and field(kh, "hash") is h, "hash"))
        out.append((field(op, "value_entry") is new, "entry"))
        nw = field(op, "new_weight")
        out.append((is_weight(nw, key, value_of(new)), "weight"))
        ow = field(op, "old_weight")
        g = field(op, "entry_gen")
        if m[0] == "ins":
            out.append((ow is K(0), "previous weight"))
            out.append((g.op == "call" and g.a[0] == "EntryInfo::entry_gen" and g.a[1][0] is info_of(new), "generation"))
        else:
            oi = info_of(m[2])
            out.append((ow.op == "call" and ow.a[0] == "EntryInfo::policy_weight" and ow.a[1][0] is oi, "previous weight"))
            out.append((g.op == "gen" and g.a[0] is oi, "generation"))
    else:
        out.append((var == "Remove", "kind"))
        if var != "Remove":
            return out
        kv = field(op, "kv_entry")
        out.append((isagg(kv) and field(kv, "key") is m[1], "key"))
        out.append((isagg(kv) and field(kv, "entry") is m[2], "entry"))
        g = field(op, "entry_gen")
        out.append((g.op == "gen" and g.a[0] is info_of(m[2]), "generation"))
    return out


def judge_log(p):
    out = []
    mi = p.idx(*MUT)
    out.append((len(mi) <= 1, p.key("mutations"), "a path of %s changes the map more than once" % short(p.root)))
    sent, saved = p.idx("sent"), p.idx("saved")
    if p.kind not in ("ret", "cancel"):
        return out
    if not mi:
        out.append((not sent and not saved, p.key("phantom-op"), "a path of %s reports a change to the eviction policy without having changed the map" % short(p.root)))
        return out
    m = p.ts[mi[0]]
    if p.kind == "ret":
        out.append((len(sent) == 1 and sent[0] > mi[0], p.key("not-logged"),
                    "a path of %s changes the map (%s) but returns with %d write operations sent" % (short(p.root), m[0], len(sent))))
        out.append((not saved, p.key("duplicate"), "a path of %s both sends its write operation and saves it for retry" % short(p.root)))
        ops = [p.ts[i][1] for i in sent]
    else:
        n = len(sent) + len(saved)
        out.append((n >= 1, p.key("lost-on-cancel"),
                    "when the future of %s is dropped at an await point after the map changed (%s), its write operation is neither sent nor saved for retry" % (short(p.root), m[0])))
        out.append((len(sent) <= 1 and len(saved) <= 1 and n == 1, p.key("duplicate-on-cancel"),
                    "when the future of %s is dropped, its write operation is delivered more than once" % short(p.root)))
        ops = [p.ts[i][1] for i in sent]
        notified = bool(p.idx("notified", "off", "caught"))
        for i in saved:
            v = p.ts[i][1]
            op = field(v, "op")
            if op is None:
                out.append((False, p.key("saved-shape"), "the saved operation carries no write operation"))
                continue
            ops.append(op)
            if p.cfg["removal_notifier"] == "Some" and m[0] != "ins" and not notified:
                out.append((v.a[1] == "CallEvictionListener", p.key("notify-lost-on-cancel"),
                            "when the future of %s is dropped before the eviction listener completed, the notification is not saved for retry" % short(p.root)))
    for op in ops:
        if not isagg(op):
            out.append((False, p.key("op-shape"), "the write operation sent by %s is not built from the change it made" % short(p.root)))
            continue
        for ok, what in op_matches(m, op):
            out.append((ok, p.key("op-" + what), "a path of %s reports a different %s to the eviction policy than that of the change it made (%s)" % (short(p.root), what, m[0])))
    if m[0] == "rep":
        i = p.first("set_policy_weight")
        ok = i is not None and p.ts[i][1] is info_of(m[2]) and is_weight(p.ts[i][2], m[1], value_of(m[3]))
        out.append((ok, p.key("entry-weight"), "a path of %s replaces a value without recording the new value's weight on the entry" % short(p.root)))
    if m[0] in ("rep", "rem"):
        g = [e for e in p.ts if e[0] == "gen" and e[1] is info_of(m[2])]
        out.append((len(g) >= 1, p.key("gen"), "a path of %s changes an entry without marking it as changed" % short(p.root)))
    return out


def c06(P, res, tier):
    roots = simple_roots(P)
    res.floor("simple write entry points", len(roots), 9)
    kw = dict(cancel=True, wanted=("ins", "rep", "rem", "sent", "saved", "gen", "set_policy_weight", "notify", "notified", "off", "caught"))
    per_root(P, res, roots, judge_log, **kw)
    if not res.findings:
        cover_all(P, res, roots, judge_log, **kw)
    retry(P, res, roots)


def retry(P, res, roots):
    """Interrupted operations of dropped futures are taken up again."""
    rx = []
    for p, f in P.fns.items():
        for c, args in direct_calls(f):
            if c and W.RECV.search(c) and "InterruptedOp" in str([o for o in f["locals"]]):
                if any("InterruptedOp" in l[0] for l in f["locals"]):
                    rx.append(p)
    rx = sorted({re.sub(r"(::\{closure#\d+\})+$", "", p) for p in rx})
    res.floor("functions that take up interrupted operations", len(rx), 1)
    for root in rx:
        r = W.RetryRule2(W.main_map_fields(P))
        eng = A.Engine(P, r, lib.BASE_MODELS)
        ex = eng.run(root)
        res.cover(eng)
        for e in ex:
            r.close(eng, e.st, None, e.kind)
        res.floor("interrupted operations taken up", r.done, 2)
        for how, what, trail in r.bad:
            res.bad("retry:%s:%s" % (short(root), how), "an interrupted write operation taken up by %s %s" % (short(root), what), root, trail)
        res.ob(True, "", "")
    # every async write operation and run_pending_tasks takes them up
    names = roots_named(P, ["insert", "invalidate", "remove", "run_pending_tasks"])
    for p in names:
        if p.startswith("future::"):
            res.ob(bool(P.closure([p]) & set(rx)), "no-retry:" + short(p), "%s never takes up interrupted operations" % short(p), p)


def mutators(P, res):
    """Functions that change the main map directly."""
    out = set()
    fields = R.main_map_fields(P)
    for p, f in P.fns.items():
        if p.startswith(("cht::", "<cht::")):
            continue
        for c, args in direct_calls(f):
            if c and re.match(r"^cht::segment::HashMap::<.*>::(insert\w*|remove\w*)$", c):
                if field_trace(f, args[0]) & fields or takes_main(f):
                    out.add(p)
    return out


def takes_main(f):
    return any("HashMap<" in l[0] and "ValueEntry<" in l[0] for l in f["locals"][1:f["args"] + 1])


MAINT = re.compile(r"::(do_run_pending_tasks|run_pending_tasks|try_run_pending_tasks)(::\{closure#\d+\})*$")


def closure_cut(P, roots, cut):
    seen, work = set(), list(roots)
    while work:
        x = work.pop()
        if x in seen or x not in P.fns or cut(x):
            continue
        seen.add(x)
        work.extend(P.callees[x])
    return seen


def cover_all(P, res, simple, judge, **kw):
    """The remaining public operations change the map only through functions for which the
    rule holds on its own ("sealed"); an operation that does not is analysed in full."""
    muts = mutators(P, res)
    user = closure_cut(P, simple, lambda x: MAINT.search(x))
    um = muts & user
    res.floor("functions of the write operations that change the map", len(um), 4)
    cands = []
    for p in sorted(user):
        f = P.fns[p]
        if f["kind"] == "fn" and p not in simple and p not in um and not MAINT.search(p) \
                and closure_cut(P, [p], lambda x: MAINT.search(x)) & um:
            cands.append(p)

    def one(root):
        r2 = lib.Result(res.pid)
        hit = False
        for _, ps in paths(P, r2, [root], **kw):
            for p in ps:
                hit = hit or bool(p.idx(*MUT))
                for ok, key, msg in judge(p):
                    r2.ob(ok, key, msg, root)
        return hit and not r2.findings
    seal = set()
    for c, (st, r) in zip(cands, pmap(one, cands)):
        if st == "ok" and r:
            seal.add(c)
    others = []
    for p, f in sorted(P.fns.items()):
        if f.get("reach") and f["kind"] == "fn" and p not in simple and re.search(r"::(Cache|SegmentedCache|\w*EntrySelector)::<", p):
            if closure_cut(P, [p], lambda x: x in seal or x in simple or MAINT.search(x)) & muts:
                others.append(p)
    res.stats["sealed write functions"] = len(seal)
    res.stats["operations analysed in full"] = len(others)
    if seal:
        res.sample("sealed: " + ", ".join(short(x) for x in sorted(seal)))
    if others:
        per_root(P, res, others, judge, **kw)
    n = 0
    for p, f in P.fns.items():
        if f.get("reach") and f["kind"] == "fn" and p not in simple and P.closure([p]) & seal:
            n += 1
            res.ob(True, "", "")
    res.floor("other public operations covered through sealed functions", n, 40)


# --------------------------------------------------------------------------- C07
def judge_notify(p):
    out = []
    mi = p.idx(*MUT)
    no = p.idx("notify")
    if p.kind != "ret":
        if p.kind == "cancel":
            out.append((len(no) <= 1, p.key("notified-twice"), "a path of %s notifies twice" % short(p.root)))
        return out
    on = p.cfg["removal_notifier"] == "Some"
    r = short(p.root)
    if not mi or p.ts[mi[0]][0] == "ins":
        out.append((not no, p.key("spurious"), "a path of %s calls the eviction listener although it removed nothing" % r))
        return out
    m = p.ts[mi[0]]
    excused = bool(p.idx("off", "caught"))
    if not on:
        out.append((p.cfg["removal_notifier"] == "None", p.key("unnoticed"),
                    "a path of %s removes a value without consulting whether an eviction listener is set" % r))
        out.append((not no, p.key("spurious"), "a path of %s notifies although no listener is set" % r))
        return out
    if excused and not no:
        out.append((True, "", ""))
        return out
    out.append((len(no) == 1, p.key("not-once"), "a path of %s removes a value (%s) and calls the eviction listener %d times" % (r, m[0], len(no))))
    if len(no) != 1:
        return out
    n = p.ts[no[0]]
    out.append((no[0] > mi[0], p.key("early"), "a path of %s notifies before the value has left the cache" % r))
    out.append((bool(p.idx("notified", "caught")), p.key("dropped-future"), "a path of %s creates the listener's future but does not complete it" % r))
    key_ok = n[2] is m[1] or any(x.op == "chtkey" for x in subs(n[2])) or n[2] is N("fld", N("fld", info_of(m[2]), "key_hash"), "key")
    out.append((key_ok, p.key("key"), "a path of %s notifies with a key other than the removed entry's" % r))
    out.append((n[3] is value_of(m[2]), p.key("value"), "a path of %s notifies with a value other than the one removed" % r))
    out.append((n[4] is None, p.key("cause"), "a path of %s (%s) reports a wrong cause: %s" % (r, "update" if m[0] == "rep" else "removal", n[4])))
    return out


def c07(P, res, tier):
    roots = simple_roots(P)
    res.floor("simple write entry points", len(roots), 9)
    kw = dict(labels=True, wanted=("ins", "rep", "rem", "notify", "notified", "off", "caught"), extra_stop=("expire_after_",))
    per_root(P, res, roots, judge_notify, **kw)
    if not res.findings:
        cover_all(P, res, roots, judge_notify, **kw)


# --------------------------------------------------------------------------- C08
def judge_lock(p):
    out = []
    mi = p.idx(*MUT)
    r = short(p.root)
    if p.kind not in ("ret", "cancel"):
        return out
    lk, ul = p.idx("lock"), p.idx("unlock")
    out.append((len(lk) == len(ul) and len(lk) <= 1, p.key("unbalanced"), "a path of %s locks a key %d times and unlocks it %d times" % (r, len(lk), len(ul))))
    for i in p.idx("housekeep", "sent"):
        held = len([x for x in lk if x < i]) - len([x for x in ul if x < i])
        out.append((held == 0, p.key("held"), "a path of %s runs or waits for maintenance while it holds the key lock; maintenance needs the key locks (deadlock)" % r))
    if not mi:
        return out
    m = p.ts[mi[0]]
    must = p.cfg["key_locks"] == "Some"
    if m[0] == "rem" and not [i for i in p.idx("found") if i < mi[0] and p.ts[i][1] != "remove_entry"]:
        must = False     # the key was not there when it was looked up for locking
    if m[0] != "rem" and p.cfg["key_locks"] is None:
        out.append((False, p.key("unlocked"), "a path of %s changes the map without consulting the key locks" % r))
    if must:
        held = [i for i in lk if i < mi[0] and not [j for j in ul if i < j < mi[0]]]
        out.append((bool(held), p.key("not-locked"), "a path of %s changes the map for a key it has not locked" % r))
        if held:
            kl = p.ts[held[0]][1]
            k = kl.a[0]
            ok = kl.op == "keylock" and (k is m[1] or any(x.op == "chtkey" for x in subs(k)))
            out.append((ok, p.key("wrong-key"), "a path of %s locks a key other than the one it changes" % r))
            for i in p.idx("notify", "notified"):
                early = [j for j in ul if held[0] < j < i]
                out.append((not early, p.key("unlocked-before-notify"),
                            "a path of %s releases the key lock before the eviction listener has been told: two notifications for a key can be reordered" % r))
    return out


def c08(P, res, tier):
    roots = simple_roots(P)
    res.floor("simple write entry points", len(roots), 9)
    kw = dict(wanted=("ins", "rep", "rem", "notify", "notified", "lock", "unlock", "housekeep", "sent", "found"), cancel=True)
    per_root(P, res, roots, judge_lock, **kw)
    if not res.findings:
        cover_all(P, res, roots, judge_lock, **kw)
    import checks_maint
    checks_maint.c08_maint(P, res)


# --------------------------------------------------------------------------- C25
def now_in(t):
    return t.op == "now"


def stamp_value(x):
    """instant an AtomicInstant term was created with"""
    if x.op == "call" and x.a[0].endswith("AtomicInstant::new"):
        return x.a[1][0]
    return None


def judge_store(p):
    out = []
    if p.kind != "ret":
        return out
    r = short(p.root)
    mi = p.idx(*MUT)
    meth = p.root.rsplit("::", 1)[1]
    if not mi:
        if meth.startswith("insert"):
            dis = [e for e in p.ts if e[0] == "disabled"]
            out.append((bool(dis), p.key("dropped"), "a path of %s returns without storing the value although the cache's capacity is not zero" % r))
        elif meth == "remove":
            out.append((p.val is NONE, p.key("phantom-value"), "a path of %s returns a value although it removed nothing" % r))
        return out
    m = p.ts[mi[0]]
    if m[0] in ("ins", "rep"):
        out.append((value_of(m[-2]).op == "arg" and value_of(m[-2]).a[0] == "value", p.key("value"), "a path of %s stores something other than the given value" % r))
        out.append((m[1].op == "arg" and m[1].a[0] == "key", p.key("key"), "a path of %s stores the value under something other than the given key" % r))
    if m[0] == "ins":
        i = info_of(m[2])
        for f in ("last_modified", "last_accessed"):
            x = field(i, f) if isagg(i) else None
            out.append((x is not None and stamp_value(x) is not None and now_in(stamp_value(x)), p.key("new-" + f),
                        "a path of %s creates an entry whose %s time is not the current time" % (r, f)))
        kh = field(i, "key_hash") if isagg(i) else None
        out.append((kh is not None and isagg(kh) and field(kh, "key") is m[1] and field(kh, "hash") is m[-1], p.key("identity"),
                    "a path of %s creates an entry that does not carry the key and hash it is stored under" % r))
    elif m[0] == "rep":
        i = info_of(m[2])
        out.append((info_of(m[3]) is i, p.key("shared-info"), "a path of %s replaces a value but detaches it from the entry the eviction policy knows" % r))
        for f in ("last_modified", "last_accessed"):
            ok = [e for e in p.ts if e[0] == "stamp" and e[1] == f and e[2] is i and now_in(e[3])]
            out.append((bool(ok), p.key("restart-" + f), "a path of %s replaces a value without restarting its %s time" % (r, f)))
    else:
        if meth == "remove":
            ok = isagg(p.val, A.OPT, "Some") and p.val.a[3][0] is value_of(m[2])
            out.append((ok, p.key("returned"), "a path of %s does not return the value it removed" % r))
        k = m[1]
        out.append((m[3] is not None and any(x.op == "arg" and x.a[0] == "key" for x in subs(m[3])), p.key("hash"),
                    "a path of %s removes by a hash that is not the given key's" % r))
    return out


def c25(P, res, tier):
    roots = simple_roots(P)
    res.floor("simple write entry points", len(roots), 9)
    kw = dict(wanted=("ins", "rep", "rem", "stamp", "disabled"))
    per_root(P, res, roots, judge_store, **kw)


# --------------------------------------------------------------------------- C12
def judge_expiry(p):
    out = []
    if p.kind != "ret":
        return out
    r = short(p.root)
    mi = p.idx(*MUT)
    ex = p.idx("expiry")
    if not mi or p.ts[mi[0]][0] == "rem":
        out.append((not ex and not p.idx("setexp"), p.key("spurious"), "a path of %s asks the Expiry policy although it stores nothing" % r))
        return out
    m = p.ts[mi[0]]
    if p.cfg["expiry"] != "Some":
        out.append((p.cfg["expiry"] == "None", p.key("unasked"), "a path of %s stores a value without consulting the Expiry policy" % r))
        return out
    want = "expire_after_create" if m[0] == "ins" else "expire_after_update"
    out.append((len(ex) == 1 and p.ts[ex[0]][1] == want, p.key("callback"),
                "a path of %s that %s an entry calls %s instead of %s exactly once" % (r, "creates" if m[0] == "ins" else "updates", [p.ts[i][1] for i in ex], want)))
    if len(ex) != 1:
        return out
    e = p.ts[ex[0]]
    new = m[-2]
    out.append((e[2] is m[1], p.key("key"), "a path of %s passes another key to the Expiry policy" % r))
    out.append((e[3] is value_of(new), p.key("value"), "a path of %s passes another value to the Expiry policy than the one it stores" % r))
    out.append((any(x.op == "now" for x in subs(e[4])), p.key("time"), "a path of %s does not pass the time of the operation to the Expiry policy" % r))
    out.append((e[5] is None, p.key("remaining"), "a path of %s: %s" % (r, e[5])))
    se = [p.ts[i] for i in p.idx("setexp") if i > ex[0]]
    for x in se:
        out.append((x[1] is info_of(new), p.key("entry"), "a path of %s sets the expiration of another entry" % r))
        out.append((x[2] is None, p.key("deadline"), "a path of %s: %s" % (r, x[2])))
    out.append((len(se) <= 1 and not [i for i in p.idx("setexp") if i < ex[0]], p.key("sets"), "a path of %s sets the expiration more than once" % r))
    if not se:
        if m[0] == "ins":
            out.append((False, p.key("not-set"), "a path of %s ignores the duration returned for a new entry" % r))
        else:
            out.append((bool(p.idx("unchanged", "resnone")), p.key("not-set"),
                        "a path of %s ignores the duration returned by the Expiry policy although it differs from the one passed in" % r))
            out.append((bool(p.idx("ressome")) or bool(p.idx("penone")), p.key("not-cleared"),
                        "a path of %s may leave an old expiration time in place although the Expiry policy returned None" % r))
    return out


def reads_ask_expiry(P, res):
    import checks_reads as CR
    n = 0
    for root, obs in CR._runs(P, res):
        quiet = root.endswith(("contains_key", "scanning_get"))
        for kind, _, loc, labs, trail in obs:
            l = {x for x, _ in labs}
            if quiet:
                res.ob(not [x for x in l if x.startswith(("er:read", "er:wrong", "es:"))], "quiet-read:" + short(root),
                       "%s is not a read in the sense of the Expiry policy but consults or changes the expiration" % short(root), loc, trail)
                continue
            if kind in ("exit", "arg"):
                n += 1
                res.ob("er:none" in l or "er:read" in l, "read-not-asked:" + short(root),
                       "a path of %s exposes a value without asking the Expiry policy's read callback for it" % short(root), loc, trail)
                res.ob("er:wrong" not in l, "read-wrong:" + short(root),
                       "a path of %s passes the wrong entry, time or last-modified time to the Expiry policy's read callback, or asks another callback" % short(root), loc, trail)
                bad = sorted(x[3:] for x in l if x.startswith("es:") and x != "es:ok")
                res.ob(not bad, "read-deadline:" + short(root), "a path of %s: %s" % (short(root), bad), loc, trail)
                hm = {x for x in l if x.startswith("hm:")}
                if hm:
                    want = "hm:1" if "es:ok" in l else "hm:0"
                    res.ob(hm <= {want, "hm:?"} , "read-timer:" + short(root),
                           "a path of %s changes an entry's expiration on read but tells the timers it did not, or the reverse" % short(root), loc, trail)
    res.floor("exposing reads", n, 100)


def c12(P, res, tier):
    roots = simple_roots(P)
    res.floor("simple write entry points", len(roots), 9)
    kw = dict(wanted=("ins", "rep", "rem", "expiry", "setexp", "unchanged", "resnone", "ressome", "pe", "penone"), deadlines=True)
    per_root(P, res, roots, judge_expiry, **kw)
    if not res.findings:
        cover_all(P, res, roots, judge_expiry, **kw)
    reads_ask_expiry(P, res)
