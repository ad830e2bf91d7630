"""C20: maintenance happens by itself, one run at a time, and writers waiting for room are woken."""
import re
import absint as A
import lib
from absint import N, K, NONE, SOME, UNIT, READY, PENDING, isagg, field, subs
from lib import has_fld
from checks_reads import short
from moka_models import method

FULL = re.compile(r"Sender::<.*>::try_send$|Sender<.*>::try_send$|::try_send$")
RUN = re.compile(r"(InnerSync|base_cache::Inner)(::<[^>]*>)?(>)?::(do_)?run_pending_tasks$")
TRY = re.compile(r"housekeeper::Housekeeper::try_run_pending_tasks$")
HK = re.compile(r"::(apply_reads_writes_if_needed|apply_reads_if_needed)$")


class HouseRule(lib.BaseRule):
    """ts: the events of the path that matter, in order"""
    stop = ("base_cache::Inner::<K, V, S>::do_run", "base_cache::Inner<K, V, S> as common::concurrent::housekeeper")
    opaque_yields = True
    cap = 60

    def __init__(self, stops=(), cancel=False, writer=False):
        self.stops = stops
        self.writer = writer
        self.op = N("arg", "op")
        self.cancel = cancel
        self.seen = {}

    def inline(self, p):
        if RUN.search(p) and "housekeeper::Housekeeper" not in p:
            return False
        return lib.BaseRule.inline(self, p) and not any(r.search(p) for r in self.stops)

    def add(self, st, *e):
        self.seen[e[0]] = self.seen.get(e[0], 0) + 1
        if st.ts and st.ts[-1] == e:
            return
        if self.writer:
            # a writer's loop: what happened since the op was last refused
            if e[0] in ("sent", "full", "gone"):
                if ("hk",) not in st.ts:
                    e = ("bad", "tries to send without having run due maintenance first")
                elif e[1] is not self.op:
                    e = ("bad", "sends something other than the operation it was given")
            if e[0] == "full":
                st.ts = tuple(x for x in st.ts if x[0] in ("listen", "bad")) + ((("again",),) if ("listen",) in st.ts else ())
                return
            if e[0] == "listen":
                st.ts = tuple(x for x in st.ts if x[0] != "again")
            if e[0] == "waited":
                if ("listen",) not in st.ts or ("again",) not in st.ts:
                    e = ("bad", "waits for room without having tried again after it registered to be woken")
                else:
                    st.ts = tuple(x for x in st.ts if x[0] == "bad")
                    return
        if self.writer and e in st.ts:
            return
        st.ts = st.ts + (e,)

    def model(self, eng, st, ev):
        n = ev.name or ""
        m = method(n)
        if ev.kind == "poll":
            c = eng.deref_val(st, ev.args[0])
            if c.op == "lockfut":
                p = st.copy()
                self.add(st, "lock", c.a[0])
                return [(p, PENDING), (st, READY(N("hguard", c.a[0])))]
            if c.op == "runfut":
                p = st.copy()
                self.add(p, "running")
                self.add(st, "run")
                return [(p, PENDING), (st, READY(N("more", c.a[0])))]
            if c.op == "tryfut":
                p = st.copy()
                self.add(st, "try")
                return [(p, PENDING), (st, READY(N("tried", c.a[0])))]
            if c.op == "hkfut":
                p = st.copy()
                self.add(st, "hk")
                return [(p, PENDING), (st, READY(UNIT))]
            if c.op == "listener":
                p = st.copy()
                self.add(st, "waited")
                return [(p, PENDING), (st, READY(UNIT))]
            if ev.name == "<leaf>" and any(x.op == "fld" and x.a[1] == "current_task" or x.op == "content" for x in subs(c)):
                p = st.copy()
                self.add(p, "running")
                self.add(st, "run")
                return [(p, PENDING), (st, READY(N("more", N("joined", c))))]
            return None
        if not ev.args:
            return None
        if re.search(r"Mutex(::)?<.*>::(lock|try_lock|lock_arc|try_lock_arc)$", n):
            a = eng.deref_val(st, ev.args[0])
            if m.startswith("try"):
                o = st.copy()
                self.add(st, "lock", a)
                return [(st, SOME(N("hguard", a))), (o, NONE)]
            if n.startswith("async_lock"):
                return [(st, N("lockfut", a))]
            self.add(st, "lock", a)
            return [(st, N("hguard", a))]
        if m in ("deref", "deref_mut") and eng.deref_val(st, ev.args[0]).op == "hguard":
            return [(st, N("content", eng.deref_val(st, ev.args[0]).a[0]))]
        if RUN.search(n) and "Housekeeper" not in n:
            f = eng.P.fns.get(n)
            args = tuple(eng.deref_val(st, a) for a in ev.args[1:])
            self.add(st, "call", args)
            if "future" in n or f and f.get("async"):
                return [(st, N("runfut", ev.site))]
            self.add(st, "run")
            return [(st, N("more", ev.site))]
        if TRY.search(n) and not self.inline(n):
            if "future" in n:
                return [(st, N("tryfut", ev.site))]
            self.add(st, "try")
            return [(st, N("tried", ev.site))]
        if HK.search(n) and not self.inline(n):
            if "future" in n:
                return [(st, N("hkfut", ev.site))]
            self.add(st, "hk")
            return [(st, UNIT)]
        if FULL.search(n):
            op = eng.deref_val(st, ev.args[1])
            full, gone = st.copy(), st.copy()
            self.add(st, "sent", op)
            self.add(full, "full", op)
            self.add(gone, "gone", op)
            te = "crossbeam_channel::TrySendError"
            return [(st, A.OK(UNIT)), (full, A.ERR(A.AGG(te, "Full", ("0",), [op]))), (gone, A.ERR(A.AGG(te, "Disconnected", ("0",), [op])))]
        if re.search(r"Event(::<.*>)?::listen$", n):
            self.add(st, "listen")
            return [(st, N("listener", ev.site))]
        if re.search(r"Event(::<.*>)?::notify(_relaxed|_additional)?$", n):
            self.add(st, "notify", eng.deref_val(st, ev.args[1]))
            return [(st, UNIT)]
        if n.startswith("common::time::") and m == "set_instant":
            self.add(st, "after", eng.deref_val(st, ev.args[0]), eng.deref_val(st, ev.args[1]))
            return [(st, UNIT)]
        if re.search(r"AtomicBool(::<.*>)?::store$|Atomic.*::store$", n):
            self.add(st, "flag", eng.deref_val(st, ev.args[0]), eng.deref_val(st, ev.args[1]))
            return [(st, UNIT)]
        return None

    def on(self, eng, st, ev):
        if ev.kind == "drop":
            g = ev.args[0]
            if isinstance(g, A.Node) and g.op == "hguard":
                self.add(st, "unlock", g.a[0])
        elif ev.kind == "cancel":
            self.add(st, "cancel")
        return None

    def track(self, atom):
        return any(x.op == "fld" and x.a[1] in ("housekeeper", "more_entries_to_evict", "auto_run_enabled", "run_after") or x.op == "arg" and x.a[0] == "housekeeper"
                   or x.op in ("pure", "call") and x.a[0].endswith("::len") for x in subs(atom))


def run(P, root, stops=(), cancel=False, writer=False):
    r = HouseRule(stops, cancel, writer)
    e = A.Engine(P, r, lib.BASE_MODELS)
    e.max_steps = 300000
    return e, r, e.run(root)


def names(p, what):
    return p.rsplit("::", 1)[1] == what


def writers(P, res):
    n = 0
    for p in sorted(P.fns):
        if P.fns[p]["kind"] != "fn" or not names(p, "schedule_write_op"):
            continue
        n += 1
        eng, r, ex = run(P, p, (HK,), "future::" in p, True)
        res.cover(eng)
        res.ob(r.seen.get("sent", 0) > 0, "nosend:" + short(p), "%s never sends the operation" % short(p), p)
        for e in ex:
            bad = [x[1] for x in e.st.ts if x[0] == "bad"]
            res.ob(not bad, "writer:" + short(p), "%s %s" % (short(p), bad[0] if bad else ""), p, e.st.trail())
            if e.kind == "ret":
                v = eng.deref_val(e.st, e.val)
                last = e.st.ts[-1][0] if e.st.ts else None
                ok = last == "sent" if isagg(v, A.RES, "Ok") else last == "gone" if isagg(v, A.RES, "Err") else False
                res.ob(ok, "lost:" + short(p), "%s returns %s although its operation was %s" % (short(p), A.pp(v, 5), "sent" if last == "sent" else "not sent"), p, e.st.trail())
            elif e.kind not in ("cancel", "unwind"):
                res.bad("writer-exit:" + short(p), "%s ends by %s" % (short(p), e.kind), p)
    res.floor("write schedulers", n, 2)


def triggers(P, res):
    """maintenance is tried whenever a flush point is reached, time is up, or more was left to evict"""
    n = 0
    flush = {}
    for p in sorted(P.fns):
        if P.fns[p]["kind"] != "fn" or not HK.search(p):
            continue
        eng, r, ex = run(P, p, (TRY,), False)
        res.cover(eng)
        log = "read" if p.endswith("apply_reads_if_needed") else "write"
        rows = []
        for e in ex:
            if e.kind != "ret":
                continue
            n += 1
            c = {}
            for a, v in e.st.facts.items():
                if isinstance(v, tuple):
                    continue
                k, pos = atom(a, v)
                if k == "len":
                    chan = pos[1]
                    flush.setdefault((p.split("::")[0], log), set()).add(pos[2])
                    ok = W_fld(chan, log + "_op_ch") or chan.op == "arg" and chan.a[0] == "ch"
                    res.ob(ok, "channel:" + short(p), "%s decides by the length of another channel (%s)" % (short(p), A.pp(chan, 4)), p)
                    c["len"] = pos[0]
                elif k:
                    c[k] = pos
            rows.append((c, any(x[0] == "try" for x in e.st.ts), e))
        for c, tried, e in rows:
            # some assignment that agrees with the path in which maintenance is due
            if tried or c.get("hk") is False:
                res.ob(True, "", "")
                continue
            due = c.get("flagged", True) and c.get("more", True) or c.get("auto", True) and (c.get("len", True) or c.get("time", True))
            res.ob(not due, "trigger:" + short(p), "%s does not try to run maintenance on a path where it can be due (%s)" % (short(p), {k: v for k, v in sorted(c.items())}), p, e.st.trail())
    for k, v in flush.items():
        lim = channel_size(P, k[0], k[1])
        for x in v:
            res.ob(x is not None and lim is not None and 0 < x <= lim, "flush:%s:%s" % k, "the %s log of the %s cache is flushed at %s entries, but holds only %s" % (k[1], k[0], x, lim), "")
    res.floor("trigger paths", n, 12)
    res.floor("flush points", len(flush), 4)


def W_fld(t, name):
    return t.op == "fld" and t.a[1] == name


def atom(a, v):
    """(what, truth) of a fact"""
    if a.op == "var" or v in ("Some", "None"):
        b = a.a[0]
        if b.op == "arg" and b.a[0] == "housekeeper" or W_fld(b, "housekeeper"):
            return "hk", v == "Some"
        if W_fld(b, "more_entries_to_evict"):
            return "flagged", v == "Some"
        return None, None
    if a.op in ("le", "lt"):
        x, y = a.a
        for l, h, strict, neg in ((x, y, a.op == "lt", False), (y, x, a.op == "lt", True)):
            # h is the length, or the present time
            if h.op in ("pure", "call") and h.a[0].endswith("::len"):
                k = l.a[0] if l.op == "k" else None
                if k is None:
                    return "len", (None if neg else v, h.a[1][0], None)
                if neg:         # len <= k  /  len < k
                    return "len", (not v, h.a[1][0], k + (0 if strict else 1))
                return "len", (v, h.a[1][0], k + (1 if strict else 0))
            if has_fld(l, "run_after") and not has_fld(h, "run_after"):
                return "time", (not v) if neg else v
    if has_fld(a, "more_entries_to_evict"):
        return "more", bool(v)
    if has_fld(a, "auto_run_enabled"):
        return "auto", bool(v)
    return None, None


def channel_size(P, mod, log):
    import checks_config as C
    for b in C.builders(P):
        if b.startswith(mod + "::") and b.endswith("::build") and "Segmented" not in b:
            eng = C.engine(P)
            tmpl, _ = C.template(P, eng, b)
            eng = C.engine(P)
            over = {"eviction_policy": C.policies(P)[0]}
            for e in eng.run(b, args=[C.argset(P, tmpl, frozenset(), over)]):
                if e.kind == "ret":
                    v = C.deep(eng.deref_val(e.st, e.val), log + "_op_ch")
                    ks = [x.a[0] for x in subs(v) if x.op == "k" and isinstance(x.a[0], int)] if v is not None else []
                    if ks:
                        return ks[0]
    return None


def records(P, res):
    n = 0
    for p in sorted(P.fns):
        if P.fns[p]["kind"] != "fn" or not names(p, "record_read_op"):
            continue
        n += 1
        eng, r, ex = run(P, p, (HK,), False)
        res.cover(eng)
        for e in ex:
            if e.kind == "ret":
                res.ob(("hk",) in e.st.ts, "read-trigger:" + short(p), "a path of %s records a read without having run due maintenance" % short(p), p, e.st.trail())
                res.ob(any(x[0] in ("sent", "full", "gone") and x[1] is N("arg", "op") for x in e.st.ts), "read-record:" + short(p), "a path of %s does not record the read" % short(p), p, e.st.trail())
    res.floor("read recorders", n, 2)


MAX = (1 << 64) - 1


def runs(P, res):
    """the housekeeper: one run at a time, its result kept, waiters woken after the lock is free"""
    n = 0
    for p in sorted(P.fns):
        if P.fns[p]["kind"] != "fn" or not re.search(r"housekeeper::Housekeeper::(try_)?run_pending_tasks$", p):
            continue
        fut = p.startswith("future::")
        eng, r, ex = run(P, p, (), fut)
        res.cover(eng)
        res.ob(r.seen.get("run", 0) > 0, "norun:" + short(p), "%s never runs maintenance" % short(p), p)
        for e in ex:
            n += 1
            ts = e.st.ts
            ev = [x[0] for x in ts]
            locked = None
            for i, x in enumerate(ts):
                if x[0] == "lock":
                    res.ob(locked is None, "relock:" + short(p), "%s locks twice" % short(p), p)
                    locked = x[1]
                elif x[0] == "unlock":
                    locked = None
                elif x[0] in ("run", "running", "call", "after", "flag"):
                    res.ob(locked is not None, "unlocked:" + short(p), "%s can run maintenance while another run is under way" % short(p), p, e.st.trail())
            if e.kind in ("ret", "cancel"):
                res.ob(locked is None, "keeps-lock:" + short(p), "%s ends with the maintenance lock held" % short(p), p, e.st.trail())
            if fut and "lock" in ev:
                last = len(ev) - 1 - ev[::-1].index("unlock") if "unlock" in ev else len(ev)
                woken = [x for x in ts[last:] if x[0] == "notify" and x[1] is K(MAX)]
                res.ob(bool(woken), "wake:" + short(p), "after a path of %s (%s) released the lock, waiting writers are not all woken" % (short(p), e.kind), p, e.st.trail())
            if e.kind == "ret":
                ran = "run" in ev
                tried = p.endswith("try_run_pending_tasks")
                res.ob(ran or tried and "lock" not in ev, "skips:" + short(p), "a path of %s does not run maintenance although nothing else does" % short(p), p, e.st.trail())
                if tried and e.val is not None and e.val.op == "k":
                    res.ob(bool(e.val.a[0]) == ran, "result:" + short(p), "%s returns %s although it %s" % (short(p), bool(e.val.a[0]), "ran" if ran else "did not run"), p)
                if not ran:
                    continue
                aft = [x for x in ts if x[0] == "after" and W_fld(x[1], "run_after")]
                ok = len(aft) == 1 and soon(aft[0][2])
                res.ob(ok, "interval:" + short(p), "%s does not schedule the next run shortly after the present time (%s)" % (short(p), A.pp(aft[-1][2], 4) if aft else "not at all"), p, e.st.trail())
                has = [v for a, v in e.st.facts.items() if a.op == "var" and W_fld(a.a[0], "more_entries_to_evict")]
                flag = [x for x in ts if x[0] == "flag" and has_fld(x[1], "more_entries_to_evict")]
                if has == ["Some"]:
                    res.ob(bool(flag) and flag[-1][2].op == "more", "more:" + short(p), "%s does not remember whether more entries are to be evicted" % short(p), p, e.st.trail())
                else:
                    res.ob(has == ["None"], "more-unknown:" + short(p), "%s does not look for where to remember that more entries are to be evicted" % short(p), p)
            if fut:
                ct = [v for k, v in e.st.heap.items() if k.op == "content" and W_fld(k.a[0], "current_task")]
                if e.kind == "ret" and "run" in ev:
                    res.ob(ct == [NONE], "task-kept:" + short(p), "%s ends a run without forgetting it, so that no further run ever starts" % short(p), p, e.st.trail())
                if e.kind == "cancel" and "call" in ev and "run" not in ev:
                    res.ob(len(ct) == 1 and isagg(ct[0], A.OPT, "Some"), "task-lost:" + short(p), "%s dropped in the middle of a run forgets it, so that a second one can start" % short(p), p, e.st.trail())
                if e.kind == "cancel" and "call" not in ev and "run" not in ev:
                    res.ob(ct == [] or not any(x is NONE for x in ct), "task-dropped:" + short(p), "%s dropped while waiting for a run forgets that run" % short(p), p, e.st.trail())
    res.floor("housekeeper paths", n, 10)
    # only the housekeeper starts maintenance
    for p, f in P.fns.items():
        if "housekeeper::Housekeeper" in p or RUN.search(p.split("::{closure")[0]):
            continue
        for c in calls(f):
            if RUN.search(c) and "Housekeeper" not in c and f.get("reach") is not False:
                res.bad("bypass:" + short(p), "%s starts maintenance without the housekeeper" % short(p), p)
    res.ob(True, "", "")


def calls(f):
    for b in f["blocks"]:
        t = b["t"]
        if t["k"] == "call" and t["f"][0] == "k" and isinstance(t["f"][1], dict) and "fn" in t["f"][1]:
            yield t["f"][1]["fn"]


def soon(t):
    if t.op != "tadd" or not (t.a[0].op == "now" or t.a[0].op in ("call", "pure") and re.search(r"::(now|current_time)$", t.a[0].a[0])):
        return False
    d = t.a[1]
    if d.op in ("pure", "call") and d.a[1] and d.a[1][0].op == "k":
        k = d.a[1][0].a[0]
        return "from_millis" in d.a[0] and 0 < k <= 60000 or "from_secs" in d.a[0] and 0 < k <= 60 or "from_micros" in d.a[0] and 0 < k <= 60000000
    return False


def asked(P, res):
    """run_pending_tasks of a cache runs maintenance; what is built runs it by itself"""
    n = 0
    for p in sorted(P.fns):
        if P.fns[p]["kind"] != "fn" or not re.search(r"^(sync|future)::cache::Cache::<K, V, S>::run_pending_tasks$", p):
            continue
        n += 1
        r = HouseRule((), False)
        base = r.inline
        r.inline = lambda q, base=base: not re.search(r"housekeeper::Housekeeper::\w+$", q) and "retry_interrupted_ops" not in q and base(q)
        old = r.model

        def model(eng, st, ev, old=old, r=r):
            if re.search(r"housekeeper::Housekeeper::run_pending_tasks$", ev.name or "") and ev.kind != "poll":
                r.add(st, "asked")
                return [(st, UNIT)] if "future" not in ev.name else [(st, N("hkfut", ev.site))]
            return old(eng, st, ev)
        r.model = model
        eng = A.Engine(P, r, lib.BASE_MODELS)
        for e in eng.run(p):
            if e.kind == "ret":
                hk = [v for a, v in e.st.facts.items() if a.op == "var" and W_fld(a.a[0], "housekeeper")]
                res.ob(("asked",) in e.st.ts or hk == ["None"], "asked:" + short(p), "a path of %s returns without running maintenance" % short(p), p, e.st.trail())
        res.cover(eng)
    res.floor("maintenance on request", n, 2)
    import checks_config as C
    k = autos = 0
    for b in C.builders(P):
        if not b.endswith("::build"):
            continue
        eng = C.engine(P)
        tmpl, _ = C.template(P, eng, b)
        for on in (frozenset(), frozenset(["eviction_listener"])):
            eng = C.engine(P)
            for e in eng.run(b, args=[C.argset(P, tmpl, on, {"eviction_policy": C.policies(P)[0]})]):
                if e.kind != "ret":
                    continue
                v = eng.deref_val(e.st, e.val)
                hks = [x for y in [v] + list(eng.rule.pushed) for x in subs(y) if isagg(x) and field(x, "auto_run_enabled") is not None]
                k += 1
                res.ob(bool(hks), "nohk:" + short(b), "the cache is built without a housekeeper", b)
                for h in hks:
                    a = field(h, "auto_run_enabled")
                    a = e.st.heap.get(a, a)
                    if a.op not in ("cell", "phi"):      # else one of many segments, built by the same constructor
                        autos += 1
                        res.ob(K(1) in set(subs(a)), "auto:" + short(b), "the cache is built with automatic maintenance off", b)
                    m = field(h, "more_entries_to_evict")
                    t = field(h, "maintenance_task_timeout")
                    res.ob(isagg(m, A.OPT) and isagg(t, A.OPT) and (m.a[1] == "Some" or t.a[1] == "None"), "timeout:" + short(b), "a run may stop early but what it left is not remembered", b)
        res.cover(eng)
    res.floor("housekeepers built", k, 6)
    res.floor("housekeepers built with a known start", autos, 4)


def c20(P, res, tier="quick"):
    writers(P, res)
    triggers(P, res)
    records(P, res)
    runs(P, res)
    asked(P, res)


if __name__ == "__main__":
    import sys, prog
    P = prog.Program()
    for p in sorted(P.fns):
        if re.search(sys.argv[1], p) and P.fns[p]["kind"] == "fn":
            stops = [re.compile(x) for x in sys.argv[2:]]
            eng, r, ex = run(P, p, stops, "future" in p, "schedule" in p)
            print(p, len(ex), eng.steps)
            for e in ex[:14]:
                print("  ", e.kind, A.pp(e.val, -4) if e.val is not None else "", [(x[0],) + tuple(A.pp(y, -4)[:60] if isinstance(y, A.Node) else str(y)[:30] for y in x[1:]) for x in e.st.ts])
                print("       ", [(A.pp(a, -5)[:90], v) for a, v in e.st.facts.items()])
