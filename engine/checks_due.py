"""C17: a maintenance run looks for everything that is due, and each scan goes on until it
has reason to stop."""
import re
import absint as A
import lib
import rules_writes as W
import rules_cap as RC
import rules_maint as MR
import checks_maint as CM
import checks_cap as CK
from absint import N, K
from checks_writes import merge
from checks_reads import short
from par import pmap

BASE = dict(removal_notifier="None", notifier="None", key_locks="None")
KINDS = ("ttl", "tti", "va", "ent")
EXP = {"ttl", "tti", "ent"}


class RoleRule(MR.MaintRule):
    """what the removals of a function are conditioned on"""


def roles(P, us):
    def job(u):
        got = set()

        def j(rule, eng, st, which, ep, how):
            if which == "rem":
                if ep[0][0] == "drain":
                    got.add("drain")
                else:
                    op = bool(st.ts[2])
                    got.update((("op " if op else "") + k) for w, k in ep[0][4])
            return []
        r = MR.MaintRule(W.main_map_fields(P), j, BASE)
        r.aspects, r.stubs = set(), frozenset(x for x in us if x != u)
        eng = A.Engine(P, r, lib.BASE_MODELS)
        eng.max_steps = CM.CLIMB_STEPS
        for e in eng.run(u, args=CM.arguments(P, eng, u)):
            r.close(eng, e.st, e.kind, u)
        return u, got
    out = {}
    for st, r in pmap(job, us):
        if st != "err":
            out[r[0]] = r[1]
    return out


class ScanRule(MR.MaintRule):
    """follows the entry a scan is looking at"""
    scans = 0

    def setmark(self, st, name, val=True):
        labs, held, op, rem = st.ts
        held = tuple(sorted((x for x in held if not (x.op == "mark" and x.a[0] == name)), key=str_of))
        if val is not None:
            held = tuple(sorted(held + (N("mark", name, val),), key=str_of))
        st.ts = (labs, held, op, rem)

    def marks(self, st):
        return {x.a[0]: x.a[1] for x in st.ts[1] if x.op == "mark"}

    def inline(self, p):
        return p.endswith("Deques::<K>::select_mut") or MR.MaintRule.inline(self, p)

    def model(self, eng, st, ev):
        m = MR.DEQ.match(ev.name)
        if m and m.group(1).startswith("move_to_back") or re.search(r"Deque::<.*>::move_front_to_back$|move_to_back$", ev.name):
            self.setmark(st, "skip")
        return MR.MaintRule.model(self, eng, st, ev)

    def on(self, eng, st, ev):
        if ev.kind == "call" and FRONT.search(ev.name):
            self.clear(st)
            self.scans += 1
            self.setmark(st, "seen")
        if ev.kind == "removed" and "skip" not in self.marks(st):
            self.clear(st)
        if ev.kind == "store" and ev.name == "more_entries_to_evict":
            v = ev.args[1]
            if v is K(1):
                self.setmark(st, "more")
            elif v is K(0):
                self.setmark(st, "more", None)
        return MR.MaintRule.on(self, eng, st, ev)

    def clear(self, st):
        for k in list(self.marks(st)):
            if k in KINDS or k in ("end", "enough"):
                self.setmark(st, k, None)

    def fact(self, eng, st, atom, val):
        r = MR.MaintRule.fact(self, eng, st, atom, val)
        for o, k, b in MR.labels(atom, val):
            if k in KINDS and b and o is not None and from_front(o):
                self.setmark(st, k)
        if atom.op == "var" and val == "None":
            t = atom.a[0]
            if t.op in ("call", "phi") and RC.source(t) == "front" or t.op == "call" and FRONT.search(t.a[0]) or RC.has_src(t, "front") and t.op == "phi":
                self.setmark(st, "end")
            elif MR.instant_of(t, "valid_after"):
                self.setmark(st, "va")
        if atom.op in ("le", "lt"):
            c = RC.classify(atom, val, None, 1 if "evict" in self.marks(st) else 0, st)
            if c and c[0] == "below" and not c[1]:
                self.setmark(st, "enough")
        return r


FRONT = re.compile(r"common::deque::Deque::<.*>::(peek_front|peek_front_ptr)$|common::deque::Deque<.*> as .*Iterator(<.*>)?>::next$")


def str_of(x):
    return (x.op, x.a[0] if x.op == "mark" else "", x.n)


def from_front(o):
    return any(RC.source(x) == "front" for x in A.subs(o)) or RC.has_src(o, "front")


def scan(P, pid, fn, us, want, cfg):
    res = lib.Result(pid)
    r = ScanRule(W.main_map_fields(P), lambda *a: [], cfg)
    r.aspects = set()
    r.stubs = frozenset(u for u in us if u != fn)
    eng = A.Engine(P, r, lib.BASE_MODELS)
    eng.max_steps = CM.CLIMB_STEPS
    ex = eng.run(fn, args=CM.arguments(P, eng, fn))
    res.cover(eng)
    for e in ex:
        if e.kind != "ret":
            continue
        m = r.marks(e.st)
        need = [k for k in want if k in KINDS]
        ok = "more" in m or "skip" in m or "end" in m or need and all(k in m for k in need) or "la=" in want and "enough" in m
        res.ob(ok, "stops-early:%s" % short(fn),
               "the scan ends although the entry at the front of the queue was not found to be still valid (%s), the queue was not found empty, nothing was skipped and no further run was asked for"
               % ", ".join(need or ["enough weight evicted"]), fn, e.st.trail())
    res.stats["scans"] = r.scans
    return res


class DueRule(CK.DriverRule):
    def did(self, st, role):
        labs, held, op, rem = st.ts
        m = N("mark", "did:" + role, True)
        if m not in held:
            self.setmark(st, m)

    def fact(self, eng, st, atom, val):
        r = CK.DriverRule.fact(self, eng, st, atom, val)
        if isinstance(val, tuple):
            return r
        if atom.op == "call" and atom.a[0].endswith("TimerWheel::is_enabled") and not val or \
                atom.op == "call" and re.search(r"TimerWheel(::<.*>)?::is_enabled$", atom.a[0]) and not val:
            self.did(st, "ent")
        elif atom.op == "var" and val == "None" and MR.instant_of(atom.a[0], "valid_after"):
            self.did(st, "va")
        elif atom.op == "aload" and W.fld_end(atom.a[0], "is_empty") and val:
            self.did(st, "pred")
        elif atom.op in ("eq", "le", "lt"):
            f = RC.lin(atom.a[0])
            RC.lin(atom.a[1], -1, f)
            c = f.pop(None)
            f = {k: v for k, v in f.items() if v}
            if len(f) == 1:
                t, v = next(iter(f.items()))
                ch = channel(t)
                if ch:
                    # v*len + c  ==0 / <=0 / <0
                    if atom.op == "eq":
                        zero = bool(val) and c == 0
                    elif atom.op == "le":
                        zero = val and v > 0 and c >= 0 or not val and v < 0 and c >= 0
                    else:
                        zero = val and v > 0 and c >= -1 or not val and v < 0 and c >= 0 and c == 0
                    if zero:
                        self.did(st, ch)
        elif atom.op == "call" and atom.a[0].endswith("::is_empty") and val:
            for x in atom.a[1]:
                b = W.base_fld(x)
                if b in CH:
                    self.did(st, CH[b])
        return r


CH = {"read_op_ch": "reads", "write_op_ch": "writes"}
CK.DUE.update(reads="recorded reads waiting in the read log", writes="write operations waiting in the write log")


def channel(t):
    if t.op in ("call", "pure") and t.a[0].endswith("::len"):
        for x in t.a[1]:
            b = W.base_fld(x)
            if b in CH:
                return CH[b]
    return None


OFF = dict(BASE, time_to_live="None", time_to_idle="None", invalidator="None", max_capacity="None")
DRIVER_CONFIGS = [OFF, dict(OFF, time_to_live="Some"), dict(OFF, time_to_idle="Some"), dict(OFF, invalidator="Some"), dict(OFF, time_to_live="Some", invalidator="Some", time_to_idle="Some")]


def due(cfg):
    out = ["va", "ent", "reads", "writes"]
    for f, k in (("time_to_live", "ttl"), ("time_to_idle", "tti"), ("invalidator", "pred")):
        if cfg.get(f) == "Some":
            out.append(k)
    return tuple(out)


def takes(P, u, what):
    return any(W.RECV.search(c) and what in str(args) + str(P.fns[p]["locals"]) for p in P.fns if CM.base_fn(p) == u for c, args in CM.direct_calls(P.fns[p]) if c)


def c17(P, res, tier):
    us, cl, roots = CM.units(P, res)
    ro = roles(P, us)
    jobs = []
    does = {}
    # what is done for a single write operation is no scan
    for_ops = {CM.base_fn(p) for u in us if takes(P, u, "WriteOp<") for p in P.closure([u])}
    for u, g in sorted(ro.items()):
        if u in roots or u not in us:
            continue
        ks = [k for k in KINDS if k in g]
        if "drain" in g:
            ks.append("pred")
        does[u] = tuple(ks)
        rd, wr = takes(P, u, "ReadOp<"), takes(P, u, "WriteOp<")
        if rd or wr:
            does[u] = (("writes",) if wr else ()) + (("reads",) if rd else ())
        want = [k for k in ("ttl", "tti", "va", "la=") if k in g]
        if want and u not in for_ops and "drain" not in g and "ent" not in g:
            for t in ("Some", "None"):
                jobs.append((u, tuple(k for k in want if k not in ("ttl", "tti") or t == "Some"), dict(BASE, time_to_live=t, time_to_idle=t)))
    for st, r in pmap(lambda j: scan(P, res.pid, j[0], us, j[1], j[2]), jobs):
        if st == "err":
            res.bad("engine", "analysis failed: " + r, "")
        else:
            merge(res, r)
    res.floor("scans of a queue for entries to remove", len({j[0] for j in jobs}), 6)
    timers(P, res, us, ro)
    elements(P, res, us, ro)
    logs(P, res, us, does)
    CK.driver(P, res, us, {}, {"due"}, DRIVER_CONFIGS, does, due, DueRule)
    res.sample("roles: " + "; ".join("%s: %s" % (short(u), ", ".join(k)) for u, k in sorted(does.items())))


class TimerRule(MR.MaintRule):
    """each event of the timer wheel"""
    items = 0

    def on(self, eng, st, ev):
        if ev.kind == "iter_filter" and any(x.op == "call" and "TimerWheel" in x.a[0] for x in A.subs(eng.deref_val(st, ev.args[0]))):
            it, v = ev.args[1], eng.deref_val(st, ev.args[2])
            drop = v is K(0) or A.isagg(v) and v.a[1] == "None"
            var = st.facts.get(N("var", it))
            gone = var is not None and var != "Expired"
            dirty = any(k == "dirty" and o is not None and it in A.subs(o) for o, k, b in self.labs(st))
            self.items += 1
            self.verdict1(st, "due", not drop or gone or dirty, "timer-event", "an entry the timer wheel reported as expired is left out: it was not found to have a pending write", ev.fn)
        if ev.kind == "iter_item":
            self.judge_item(st, ev.fn)
            it = eng.deref_val(st, ev.args[1])
            self.items += 1
            labs, held, op, rem = st.ts
            st.ts = (labs, tuple(x for x in held if x.op != "mark") + (N("mark", "item", it),), op, rem)
        if ev.kind in ("removed", "unremoved") and W.is_main(self.mf, eng.deref_val(st, ev.raw)):
            self.settle(st)
        return MR.MaintRule.on(self, eng, st, ev)

    def settle(self, st):
        labs, held, op, rem = st.ts
        st.ts = (labs, tuple(x for x in held if x.op != "mark"), op, rem)

    def fact(self, eng, st, atom, val):
        r = MR.MaintRule.fact(self, eng, st, atom, val)
        for x in st.ts[1]:
            if x.op == "mark":
                it = x.a[1]
                if atom.op == "var" and atom.a[0] is it and val != "Expired":
                    self.settle(st)
                for o, k, b in MR.labels(atom, val):
                    if k == "dirty" and b and o is not None and (it in A.subs(o) or o in A.subs(it)):
                        self.settle(st)
        return r

    def judge_item(self, st, fn):
        for x in st.ts[1]:
            if x.op == "mark":
                self.verdict1(st, "due", False, "timer-event", "an entry the timer wheel reported as expired is passed over: it was not found to have a pending write and its removal is not tried", fn)
        self.obs += 1
        self.good += 1


def timers(P, res, us, ro):
    n = 0
    for u in us:
        if "ent" not in ro.get(u, ()):
            continue
        r = TimerRule(W.main_map_fields(P), lambda *a: [], BASE)
        r.aspects, r.stubs = {"due"}, frozenset(x for x in us if x != u)
        eng = A.Engine(P, r, lib.BASE_MODELS)
        eng.max_steps = CM.CLIMB_STEPS
        for e in eng.run(u, args=CM.arguments(P, eng, u)):
            if e.kind == "ret":
                r.judge_item(e.st, u)
        res.cover(eng)
        n += r.items
        res.obligations += r.obs
        res.discharged += r.good
        for k, (msg, where, trail) in sorted(r.verdicts.items()):
            res.bad("%s:%s" % (k, short(u)), msg, where, trail)
    res.floor("loops over the events of the timer wheel", n, 2)


class ElemRule(ScanRule):
    """entries of a queue considered for the invalidation predicates: each one is handed on,
    has a write pending, or carries no time of its last write"""
    items = 0

    def inline(self, p):
        return not DEQ_NEXT.search(p) and ScanRule.inline(self, p)

    def on(self, eng, st, ev):
        if ev.kind == "call" and DEQ_NEXT.search(ev.name):
            self.judge_item(st, ev.fn)
        if ev.kind == "call" and MR.PUSH.search(ev.name) and len(ev.args) > 1:
            self.settle(st, eng.deref_val(st, ev.args[1]))
        return ScanRule.on(self, eng, st, ev)

    def settle(self, st, v):
        it = self.marks(st).get("item")
        if it is not None and it in A.subs(v):
            self.setmark(st, "item", None)

    def fact(self, eng, st, atom, val):
        r = ScanRule.fact(self, eng, st, atom, val)
        for o, k, b in MR.labels(atom, val):
            if k == "dirty" and b and o is not None:
                self.settle(st, o)
        if atom.op == "var" and val == "Some" and atom.a[0].op == "call" and DEQ_NEXT.search(atom.a[0].a[0]):
            self.items += 1
            self.setmark(st, "item", atom.a[0])
        if atom.op == "var" and val == "None" and MR.instant_of(atom.a[0], "last_modified"):
            self.settle(st, atom.a[0])
        return r

    def judge_item(self, st, fn):
        self.verdict1(st, "due", "item" not in self.marks(st), "scan-skips", "an entry the scan for invalidation predicates came across is left out although it has no pending write", fn)
        self.setmark(st, "item", None)


DEQ_NEXT = re.compile(r"common::deque::Deque<.*> as .*Iterator(<.*>)?>::next$")


def elements(P, res, us, ro):
    n = 0
    for u in us:
        if "drain" not in ro.get(u, ()):
            continue
        r = ElemRule(W.main_map_fields(P), lambda *a: [], BASE)
        r.aspects, r.stubs = {"due"}, frozenset(x for x in us if x != u)
        eng = A.Engine(P, r, lib.BASE_MODELS)
        eng.max_steps = CM.CLIMB_STEPS
        for e in eng.run(u, args=CM.arguments(P, eng, u)):
            if e.kind == "ret":
                r.judge_item(e.st, u)
        finish(res, eng, r, u)
        n += r.items
    res.floor("entries scanned for invalidation predicates", n, 2)


def finish(res, eng, r, u):
    res.cover(eng)
    res.obligations += r.obs
    res.discharged += r.good
    for k, (msg, where, trail) in sorted(r.verdicts.items()):
        res.bad("%s:%s" % (k, short(u)), msg, where, trail)


class LogRule(ScanRule):
    """a loop over a log takes out as many operations as it was told to, or all there are"""
    def on(self, eng, st, ev):
        if ev.kind == "iter_end":
            v = eng.deref_val(st, ev.args[0])
            if A.isagg(v) and A.field(v, "end") is not None:
                x = A.field(v, "end")
                if whole(x):
                    self.setmark(st, "enough")
        return ScanRule.on(self, eng, st, ev)

    def model(self, eng, st, ev):
        r = ScanRule.model(self, eng, st, ev)
        if W.RECV.search(ev.name) and ev.ga and ("WriteOp" in ev.ga[0] or "ReadOp" in ev.ga[0]) and r and len(r) == 2:
            for s, v in r:
                self.setmark(s, "enough", None)
                if A.isagg(v) and v.a[1] == "Err":
                    self.setmark(s, "end")
        return r

    def fact(self, eng, st, atom, val):
        r = ScanRule.fact(self, eng, st, atom, val)
        if atom.op in ("le", "lt", "eq") and any(whole(x) for x in atom.a) and any(x.op == "phi" or x.op == "op" for x in atom.a):
            self.setmark(st, "enough")
        if atom.op in ("le", "lt", "eq"):
            x, y = atom.a
            zero = x if y is K(0) and val and atom.op in ("le", "eq") else y if x is K(0) and (val and atom.op == "eq" or not val and atom.op == "lt") else None
            if zero is not None and (zero.op in ("phi", "op") or whole(zero)):
                self.setmark(st, "enough")      # counted down
        return r


def whole(x):
    return x.op == "arg" or channel(x) is not None or x.op in ("call", "pure") and x.a[0].endswith("::min") and any(whole(y) for y in x.a[1])


def logs(P, res, us, does):
    n = 0
    for u in us:
        if not {"reads", "writes"} & set(does.get(u, ())):
            continue
        r = LogRule(W.main_map_fields(P), lambda *a: [], BASE)
        r.aspects, r.stubs = {"due"}, frozenset(x for x in us if x != u)
        eng = A.Engine(P, r, lib.BASE_MODELS)
        eng.max_steps = CM.CLIMB_STEPS
        for e in eng.run(u, args=CM.arguments(P, eng, u)):
            if e.kind == "ret":
                m = r.marks(e.st)
                r.verdict1(e.st, "due", "end" in m or "enough" in m, "log-stops", "the processing of the log stops before it is empty and before as many operations were taken out as were asked for", u)
        finish(res, eng, r, u)
        n += 1
    res.floor("functions that process a log", n, 4)
