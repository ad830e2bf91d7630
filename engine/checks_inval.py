"""C03, second half: what makes a registered predicate eventually reach every older entry.
Registration puts it (with the registration time) in the registry of every segment; a scan
works on predicates captured before the pending writes were applied; a predicate is
forgotten only when the scan is known to have passed every entry it can apply to; and an
entry a scan removes carries the mark its readers look for."""
import re
import absint as A
import lib
from absint import N, K, UNIT, SOME, NONE, isagg, subs
from builtins_ import method
from checks_reads import each_segment, roots_named, direct_calls, field_trace

short = lib.fnname
ABOOL = re.compile(r"Atomic(Bool|::<bool>|<bool>)?(::<.*>)?::(store|swap|fetch_and|fetch_or)$")
STOP = ("cht::", "notification", "key_lock", "notifier")


def lastf(t):
    return t.a[1] if t.op == "fld" else None


def registry(t):
    return lastf(t) == "predicates" and not lib.has_fld(t, "scan_context")


class Inval(lib.BaseRule):
    """ts = (lock held, registry inserted-not-flagged, removed-entry terms without mark)"""
    stop = STOP

    def __init__(self, narrow=False):
        self.narrow_facts = narrow
        self.out = []       # (kind, ok, ev, trail, extra)
        self.parts = {}     # (site, half) -> [item is older than the scan]
        self.inserted = 0
        self.newest = {}

    def init(self):
        return (0, False, frozenset())

    def inline(self, p):
        return "cht::" not in p and lib.BaseRule.inline(self, p)

    def track(self, atom):
        return not self.narrow_facts or any(x.op == "fld" and x.a[1] in ("predicates", "invalidator") for x in subs(atom))

    def rec(self, kind, ok, ev, st, x=None):
        self.out.append((kind, ok, ev, st.trail() if not ok else (), x))

    def model(self, eng, st, ev):
        n = ev.name or ""
        if ev.args and re.search(r"Mutex(::)?<.*>::lock$", n):
            a = eng.deref_val(st, ev.args[0])
            if lastf(a) == "registry_lock":
                if n.startswith("async_lock"):
                    return [(st, N("rlockfut", a))]
                st.ts = (st.ts[0] + 1,) + st.ts[1:]
                return [(st, N("rguard", a))]
        if ev.kind == "poll":
            c = eng.deref_val(st, ev.args[0])
            if c.op == "rlockfut":
                st.ts = (st.ts[0] + 1,) + st.ts[1:]
                return [(st, A.AGG("core::task::Poll", "Ready", ("0",), [N("rguard", c.a[0])]))]
        return None

    def on(self, eng, st, ev):
        lk, ins, pend = st.ts
        k = ev.kind
        if k == "drop":
            g = ev.args[0]
            if isinstance(g, A.Node) and g.op == "rguard":
                st.ts = (lk - 1, ins, pend)
        elif k == "iter_part":
            src, item, half = ev.args
            ok = any(self.older(a, v, item) for a, v in st.facts.items())
            self.parts.setdefault((ev.site, bool(half.a[0])), []).append(ok)
        elif k in ("inserted", "replaced") and registry(eng.deref_val(st, ev.raw)):
            v = eng.deref_val(st, ev.args[-1])
            self.inserted += 1
            self.rec("insert-lock", lk > 0, ev, st)
            pr = self.field(eng, st, v, "f")
            at = self.field(eng, st, v, "registered_at")
            self.rec("insert-what", pr is not None and any(x.op == "arg" for x in subs(pr)), ev, st)
            self.rec("insert-time", at is not None and at.op == "now", ev, st)
            st.ts = (lk, True, pend)
        elif k == "removed":
            t = eng.deref_val(st, ev.raw)
            if registry(t):
                self.rec("remove-lock", lk > 0, ev, st)
                self.forget(eng, st, ev)
            elif lastf(t) == "cache":
                v = eng.deref_val(st, ev.args[1])
                self.rec("unmarked", v not in pend, ev, st)
                st.ts = (lk, ins, pend | {v})
        elif k == "call" and ev.args and ABOOL.search(ev.name or ""):
            c = eng.deref_val(st, ev.args[0])
            v = eng.deref_val(st, ev.args[1])
            if lastf(c) == "is_empty":
                self.rec("flag-lock", lk > 0, ev, st)
                if v.op == "k" and not v.a[0]:
                    st.ts = (lk, False, pend)
                elif v.op == "k":
                    ok = any(x.op in ("call", "pure") and x.a[0].startswith("HashMap::is_empty") or x.op in ("call", "pure") and x.a[0].endswith("is_empty")
                             for x, y in st.facts.items() if y is True and any(registry(z) for z in subs(x)))
                    ok = ok or any(a.op == "eq" and K(0) in a.a and y is True and any(registry(z) for z in subs(a)) for a, y in st.facts.items())
                    self.rec("flag-true", ok, ev, st)
                else:
                    ok = any(registry(z) for z in subs(v))
                    self.rec("flag-true", ok, ev, st)
                    st.ts = (lk, False, pend)
            elif lastf(c) == "is_invalidated" and v.op == "k" and v.a[0]:
                st.ts = (lk, ins, frozenset(x for x in pend if x not in subs(c)))
        return None

    def field(self, eng, st, v, name):
        if isagg(v):
            try:
                return eng.deref_val(st, eng.proj(st, v, ("f", name)))
            except Exception:
                return None
        return None

    def regat(self, x, item):
        return x.op == "fld" and x.a[1] == "registered_at" and (item is None or item in subs(x))

    def older(self, a, v, item):
        """fact a=v says: the predicate `item` was registered before the newest entry scanned"""
        if a.op != "le":
            return False
        x, y = a.a[0], a.a[1]
        if v is False and self.regat(y, item) and not self.regat(x, None):
            return True         # !(ts <= registered_at)
        return False

    def forget(self, eng, st, ev):
        h = eng.deref_val(st, ev.ty) if isinstance(ev.ty, A.Node) else None
        terms = [h] if h is not None else []
        for a in ev.vals[1:]:
            terms.append(eng.deref_val(st, a))
        items = [x for t in terms for x in subs(t) if x.op == "item"]
        if not items:
            self.rec("forget-source", None, ev, st)
            return
        it = items[0]
        if any(self.older(a, v, it) for a, v in st.facts.items()):
            self.rec("forget", True, ev, st)
            return
        parts = [x for x in subs(it) if x.op == "part"]
        if parts:
            for p in parts[:1]:
                self.rec("forget-part", (p.a[2], bool(p.a[1])), ev, st)
            return
        adapt = [x for x in subs(it) if x.op == "adapt" or x.op in ("call", "pure") and re.search(r"filter|retain|take|skip|split", x.a[0])]
        whole = [x for x in subs(it) if lastf(x) == "predicates"]
        if adapt or not whole and not any(x.op == "arg" for x in subs(it)):
            self.rec("forget-source", None, ev, st)
            return
        args = [(a, v) for a, v in st.facts.items() if a.op == "arg" and isinstance(v, bool)]
        self.rec("forget-all", any(v is False for a, v in args), ev, st)


MSG = {
    "insert-lock": "adds a predicate to the registry without holding the registry lock",
    "insert-what": "registers something other than the predicate it was given",
    "insert-time": "registers a predicate with a time that is not the time of the call",
    "remove-lock": "removes a predicate from the registry without holding the registry lock",
    "flag-lock": "changes the registry's is_empty flag without holding the registry lock",
    "flag-true": "sets the registry's is_empty flag although the registry was not found empty",
    "unmarked": "removes a second entry before marking the first one invalidated",
    "forget": "forgets a predicate",
    "forget-all": "forgets every predicate of the scan without knowing that the scan reached the end of the queue",
    "forget-part": "forgets predicates that may still apply to entries not scanned yet",
}


def judge(P, res, root, narrow=False):
    r = Inval(narrow)
    eng = A.Engine(P, r, lib.BASE_MODELS)
    ex = eng.run(root)
    res.cover(eng)
    cnt = {}
    for kind, ok, ev, trail, x in r.out:
        cnt[kind] = cnt.get(kind, 0) + 1
        if kind == "forget-source":
            res.notes.append("%s: removal whose source is not recognised" % short(root))
            continue
        if kind == "forget-part":
            ev_ = r.parts.get(ok)
            ok = ev_ is None or all(ev_)
        res.ob(bool(ok), "%s:%s" % (kind, short(root)), "%s %s" % (short(root), MSG[kind]), ev.loc(eng), trail)
    for e in ex:
        if e.kind not in ("ret", "cancel"):
            continue
        lk, ins, pend = e.st.ts
        res.ob(not pend, "mark:" + short(root), "a path of %s removes an entry without marking it invalidated, so a reader that already looked it up may still return it" % short(root), root, e.st.trail())
        res.ob(not ins, "flag:" + short(root), "a path of %s adds a predicate without clearing the is_empty flag afterwards: lookups skip it" % short(root), root, e.st.trail())
    return eng, r, ex, cnt


# --------------------------------------------------------------------------- registration
def registration(P, res, tier=None):
    roots = roots_named(P, ["invalidate_entries_if"])
    res.floor("invalidate_entries_if entry points", len(roots), 3)

    def eff(eng, st, ev):
        return ev.kind == "inserted" and registry(eng.deref_val(st, ev.raw)) or ev.kind == "replaced" and registry(eng.deref_val(st, ev.raw))
    for r in roots:
        each_segment(P, res, r, eff, "registers the predicate", inl=lambda p: "cht::" not in p)
    n = 0
    for r in roots:
        eng, rule, ex, cnt = judge(P, res, r, True)
        n += rule.inserted
        for e in ex:
            if e.kind == "ret" and isagg(e.val, A.RES, "Err"):
                dis = any(a.op == "var" and v == "None" and lib.has_fld(a, "invalidator") for a, v in e.st.facts.items())
                res.ob(dis, "refused:" + short(r), "%s refuses a predicate although predicates are enabled" % short(r), r, e.st.trail())
    res.floor("registrations analysed", n, 3)


# --------------------------------------------------------------------------- scan
def scans(P, res, tier=None):
    roots = [p for p, f in sorted(P.fns.items()) if f["kind"] == "fn" and re.search(r"^(sync|future)::invalidator::Invalidator::<.*>::scan_and_invalidate$", p)]
    res.floor("invalidation scans", len(roots), 2)
    for r in roots:
        eng, rule, ex, cnt = judge(P, res, r)
        res.floor("removals of registered predicates in %s" % short(r), sum(v for k, v in cnt.items() if k.startswith("forget")), 2)
        res.floor("entries removed in %s" % short(r), cnt.get("unmarked", 0), 1)
        res.stats["partition sites %s" % short(r)] = len(rule.parts)


# --------------------------------------------------------------------------- the caller of a scan
class Trunc(lib.BaseRule):
    """ts = (the queue's end was reached, the batch counter reached its limit,
    the counter was then found below the limit: no such run exists)"""

    def __init__(self):
        self.calls = []
        self.decided = 0

    def init(self):
        return (False, False, False)

    def inline(self, p):
        return not re.search(r"scan_and_invalidate|cht::|handle_remove|notif|key_lock|begin_scan|KeyDateLite|::hash$|Invalidator", p) and lib.BaseRule.inline(self, p)

    def track(self, atom):
        return any(x.op == "has_next" for x in subs(atom))

    def fact(self, eng, st, atom, val):
        end, full, no = st.ts
        if isinstance(val, bool) and atom.op in ("le", "eq") and any(x.op == "arg" for x in atom.a):
            if atom.op == "le" and atom.a[0].op == "arg" and val or atom.op == "eq" and val:
                full = frozenset(atom.a)
            elif full and full == frozenset(atom.a) and val is False and (atom.a[0].op == "arg" or atom.op == "eq"):
                no = True
            st.ts = (end, full, no)
        return None

    def model(self, eng, st, ev):
        n = ev.name or ""
        if "deque::Deque" in n and ev.args:
            m = method(n)
            if m == "next":
                e = st.copy()
                e.ts = (True,) + st.ts[1:]
                v = N("wnode", ev.site)
                eng.kill_facts(st, v)
                return [(e, NONE), (st, SOME(v))]
            if m in ("has_next", "peek"):
                v = N("has_next", eng.deref_val(st, ev.args[0]), ev.site)
                eng.kill_facts(st, v)
                return [(st, v)]
            return [(st, N("call", n, (), ev.site))]
        return None

    def on(self, eng, st, ev):
        if ev.kind == "call" and re.search(r"::scan_and_invalidate$", ev.name or ""):
            t = [eng.deref_val(st, a) for a in ev.args][3]
            ok = True
            end, full, no = st.ts
            if t.op == "k" and not t.a[0]:
                hn = any(a.op == "has_next" and v is False or a.op == "var" and a.a[0].op == "has_next" and v == "None" for a, v in st.facts.items())
                ok = end or hn or no
                self.decided += 1
            elif t.op == "phi":
                self.decided -= 1000
            elif t.op == "has_next":
                self.decided += 1
            self.calls.append((ok, ev, st.trail() if not ok else ()))
        return None


def truncation(P, res, tier=None):
    roots = set()
    for p in P.fns:
        if re.search(r"invalidator::Invalidator::<.*>::scan_and_invalidate$", p):
            for c in P.callers.get(p, ()):
                f = P.fns[c]
                while f["kind"] != "fn" and "{" in c:
                    c = c.rsplit("::{", 1)[0]
                    f = P.fns.get(c, f)
                roots.add(c)
    res.floor("callers of an invalidation scan", len(roots), 2)
    for root in sorted(roots):
        r = Trunc()
        eng = A.Engine(P, r, lib.BASE_MODELS)
        eng.run(root)
        res.cover(eng)
        res.floor("scan calls in %s" % short(root), len(r.calls), 1)
        res.floor("decided end-of-queue claims in %s" % short(root), r.decided, 1)
        for ok, ev, trail in r.calls:
            res.ob(ok, "end-of-queue:" + short(root), "a path of %s tells the scan that it saw the whole write-order queue although entries may remain" % short(root), ev.loc(eng), trail)


# --------------------------------------------------------------------------- capture before drain
class Order(lib.BaseRule):
    """ts: 0 nothing, 1 predicates captured, 2 length of the write log read since"""

    def __init__(self, keep):
        self.keep = keep
        self.scans = []

    def init(self):
        return 0

    def inline(self, p):
        return p in self.keep

    def track(self, atom):
        return any(lib.has_fld(x, "invalidator") for x in [atom])

    def on(self, eng, st, ev):
        n = ev.name or ""
        if ev.kind != "call":
            return None
        if n.endswith("::begin_scan"):
            st.ts = 1
        elif re.search(r"::(len|try_iter|try_recv|is_empty)$", n) and ev.args and any(lastf(x) == "write_op_ch" for x in subs(eng.deref_val(st, ev.args[0]))):
            if st.ts == 1:
                st.ts = 2
        elif n.endswith("::scan_and_invalidate") or n.endswith("::invalidate_entries"):
            self.scans.append((st.ts == 2, ev, st.trail() if st.ts != 2 else ()))
        return None


def ordering(P, res, tier=None):
    n = 0
    for p, f in sorted(P.fns.items()):
        if f["kind"] != "fn" or not re.search(r"^(sync|future)::base_cache::Inner::<.*>::do_run_pending_tasks$", p):
            continue
        n += 1
        marks = {c for c in P.fns if c.endswith("::begin_scan") or c.endswith("::scan_and_invalidate")}
        marks |= {q for q, g in P.fns.items() if "base_cache::" in q and
                  any(a and "write_op_ch" in field_trace(g, a[0]) for c, a in direct_calls(g))}
        inner = {q for q in P.closure([p]) if q in P.fns and "base_cache::" in q and P.closure([q]) & marks}
        inner = {q for q in inner if not re.search(r"::invalidate_entries(::|$)", q)} | {p}
        r = Order(inner)
        eng = A.Engine(P, r, lib.BASE_MODELS)
        eng.run(p)
        res.cover(eng)
        res.floor("scan calls reached from %s" % short(p), len(r.scans), 1)
        for ok, ev, trail in r.scans:
            res.ob(ok, "capture-order:" + short(p),
                   "%s scans for predicates that were captured after the pending writes were counted: an older insertion may still be pending when they are forgotten" % short(p), ev.loc(eng), trail)
    res.floor("maintenance runs", n, 2)


# --------------------------------------------------------------------------- capture
class Capture(lib.BaseRule):
    stop = STOP

    def init(self):
        return None

    def on(self, eng, st, ev):
        if ev.kind == "call" and re.search(r"::(extend|extend_from_slice|append|push|clone_from)$", ev.name or "") and len(ev.args) > 1:
            if any(lastf(x) == "predicates" and lib.has_fld(x, "scan_context") for x in subs(eng.deref_val(st, ev.args[0]))):
                st.ts = eng.deref_val(st, ev.args[1])
        elif ev.kind == "iter_end" and st.ts is None and any(x.op == "chtiter" for x in subs(eng.deref_val(st, ev.args[0]))):
            st.ts = eng.deref_val(st, ev.args[0])       # a loop over the registry that ran to its end
        return None

    def inline(self, p):
        return "cht::" not in p and lib.BaseRule.inline(self, p)

    def track(self, atom):
        return True


def scanned(x):
    return x.op == "chtiter" or x.op == "out" and "cht::iter" in str(x.a[0])


def capture(P, res, tier=None):
    n = 0
    for p, f in sorted(P.fns.items()):
        if f["kind"] != "fn" or not re.search(r"^(sync|future)::invalidator::Invalidator::<.*>::begin_scan$", p):
            continue
        n += 1
        r = Capture()
        eng = A.Engine(P, r, lib.BASE_MODELS)
        hit = 0
        for e in eng.run(p):
            if e.kind != "ret":
                continue
            filled = [v for a, v in e.st.heap.items() if any(lastf(x) == "predicates" for x in subs(a))]
            if e.st.ts is not None:
                filled.append(e.st.ts)
            filled += [a for a, v in e.st.facts.items() if a.op == "var" and v == "None" and any(scanned(x) for x in subs(a))]
            whole = any(any(scanned(x) for x in subs(v)) and not any(x.op == "adapt" and x.a[0] in ("filter", "filter_map", "take_while", "skip_while") or
                                                                            x.op in ("call", "pure") and re.search(r"Iterator(>)?::(take|skip|step_by)$", x.a[0]) for x in subs(v)) for v in filled)
            if filled:
                hit += 1
                res.ob(whole, "capture:" + short(p), "%s captures only part of the registered predicates" % short(p), p, e.st.trail())
            idle = any(isinstance(v, bool) and (v is True and lib.has_fld(a, "is_empty") or v is False and a.op in ("pure", "call") and a.a[0].endswith("is_empty")
                                                and any(lastf(x) == "predicates" for x in subs(a))) for a, v in e.st.facts.items())
            res.ob(bool(filled) or idle, "no-capture:" + short(p), "a path of %s captures nothing although no scan is in progress and predicates are registered" % short(p), p, e.st.trail())
        res.floor("capturing paths of %s" % short(p), hit, 1)
    res.floor("captures", n, 2)


def inval(P, res):
    registration(P, res)
    scans(P, res)
    truncation(P, res)
    ordering(P, res)
    capture(P, res)
