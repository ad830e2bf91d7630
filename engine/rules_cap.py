"""C11: size-based admission and eviction.

Comparisons the code branches on are read as linear inequalities over the weighted size, the
maximum capacity, the weight and estimated frequency of the newcomer and the sums over the
victims; what a path has established is kept with the write operation it processes (or with
the eviction pass) and judged where an entry is admitted, rejected or evicted."""
import re
import absint as A
import rules_writes as W
import rules_maint as MR
from absint import N, K, isagg, subs, field
from rules_maint import W_cfg
from maint_judge import variant, conf, idx, EXP

FREQ = re.compile(r"FrequencySketch::frequency$")
WEIGHT = re.compile(r"(EntryInfo(::<.*>)?|ValueEntry(::<.*>)?)::policy_weight$")
DEFAULT = re.compile(r"as std::default::Default>::default$")
PEEK = re.compile(r"Deque::<.*>::(peek_front|peek_front_ptr)$")


FRONT = re.compile(r"Deque::<.*>::(peek_front|peek_front_ptr)$|DeqNode::<.*>::next_node(_ptr)?$")
BACK = re.compile(r"Deque::<.*>::(peek_back\w*)$|DeqNode::<.*>::prev_node\w*$")


def source(x):
    if x.op == "call" and FRONT.search(x.a[0]):
        return "front"
    if x.op == "call" and FREQ.search(x.a[0]):
        return "frequency"
    if x.op == "call" and WEIGHT.search(x.a[0]) or x.op == "fld" and x.a[1] == "policy_weight" and x.a[0].op == "chtval":
        return "policy_weight"
    if x.op == "fld" and x.a[1] == "weighted_size":
        return "weighted_size"
    return None


A.EXTRA_SOURCES.append(source)


def has_src(t, name):
    return any(x.op == "src" and x.a[0] == name for x in subs(t))


def lin(t, sign=1, out=None):
    """t as {leaf: coefficient}, constant under the key None"""
    out = {None: 0} if out is None else out
    if t.op == "k" and isinstance(t.a[0], int):
        out[None] += sign * t.a[0]
    elif t.op == "op" and t.a[0] in ("Add", "Sub", "AddWithOverflow", "SubWithOverflow"):
        lin(t.a[1], sign, out)
        lin(t.a[2], sign if t.a[0].startswith("Add") else -sign, out)
    elif t.op in ("pure", "call") and MR.SAT.search(t.a[0]) and len(t.a[1]) == 2:
        lin(t.a[1][0], sign, out)
        lin(t.a[1][1], sign if t.a[0].endswith("add") else -sign, out)
    elif t.op in ("pure", "call") and DEFAULT.search(t.a[0]):
        pass
    elif t.op == "cast":
        lin(t.a[0] if isinstance(t.a[0], A.Node) else t.a[-1], sign, out)
    elif t.op in ("pure", "call") and re.search(r"::(from|into)$", t.a[0]) and len(t.a[1]) == 1:
        lin(t.a[1][0], sign, out)
    else:
        out[t] = out.get(t, 0) + sign
    return out


def leaf_kind(t, op, fresh=False):
    b = W.base_fld(t)
    if b == "max_capacity":
        return "MAX"
    if b == "new_weight" and op is not None and op in subs(t):
        return "NW"
    if t.op == "call" and FREQ.search(t.a[0]):
        return "FC" if op is not None and any(op in subs(x) for x in t.a[1][1:]) else "FV"
    if source(t) == "policy_weight":
        return "VW"
    if source(t) == "weighted_size":
        return "WS"
    if t.op == "aload" and W.fld_end(t.a[0], "weighted_size") or t.op == "call" and "load" in t.a[0] and any(source(x) == "weighted_size" for x in subs(t)):
        return "WS" if fresh else "?"
    if t.op == "phi":
        for n, k in (("weighted_size", "WS"), ("frequency", "FV"), ("policy_weight", "VW")):
            if has_src(t, n):
                return k
        return "?"
    if t.op == "arg" or t.op == "fld" and root(t).op == "arg":
        return "ARG"
    return "?"


def root(t):
    while t.op in ("fld", "as", "deref"):
        t = t.a[0]
    return t


def current(st, f):
    """f with the present value of the weighted size read as one leaf"""
    for k, v in st.heap.items():
        if k.op == "fld" and k.a[1] == "weighted_size" and v.op not in ("phi", "fld"):
            g = lin(v)
            if g[None] == 0 and len(g) > 2 and all(t is None or f.get(t, 0) for t in g):
                for s in (1, -1):
                    r = dict(f)
                    for t, c in g.items():
                        if t is not None:
                            r[t] = r.get(t, 0) - s * c
                    r[k] = r.get(k, 0) + s
                    r = {t: c for t, c in r.items() if c or t is None}
                    if sum(abs(c) for t, c in r.items() if t is not None) < sum(abs(c) for t, c in f.items() if t is not None):
                        return r
    return f


def classify(atom, val, op, pushes, st=None, fresh=False, asked=(9, 9)):
    """(kind, bool, argument) this answer establishes"""
    if atom.op not in ("le", "lt", "eq") or isinstance(val, tuple):
        return None
    if atom.op == "eq" and not val and not any(x.op == "k" and x.a[0] == 0 for x in atom.a):
        return None
    f = lin(atom.a[0])
    lin(atom.a[1], -1, f)
    if st is not None:
        f = current(st, f)
    c = f.pop(None)
    f = {k: v for k, v in f.items() if v}
    if not f:
        return None
    # sum(f) + c <= 0 (le, true), >= 1 (le, false), <= -1 (lt, true), >= 0 (lt, false)
    if atom.op == "le":
        ub, lb = (-c, None) if val else (None, 1 - c)
    elif atom.op == "lt":
        ub, lb = (-1 - c, None) if val else (None, -c)
    elif val:
        ub = lb = -c
    else:
        # an unsigned difference that is not zero is positive
        if c or sum(f.values()) > 1 or atom.a[0].op == "k" and atom.a[0].a[0] != 0:
            return None
        if atom.a[0].op == "k":
            f = {k: -v for k, v in f.items()}
        ub, lb = None, 1
    kinds = {}
    for t, v in f.items():
        kinds.setdefault(leaf_kind(t, op, fresh), []).append((t, v))
    if "?" in kinds:
        return None

    def flip():
        nonlocal ub, lb, kinds
        ub, lb = (None if lb is None else -lb), (None if ub is None else -ub)
        kinds = {k: [(t, -v) for t, v in ts] for k, ts in kinds.items()}

    def sig():
        return {k: sorted({v for t, v in ts}) for k, ts in kinds.items()}

    def counted(k):
        ts = kinds.get(k, [])
        if asked[k == "VW"] < pushes:
            return False
        return any(t.op == "phi" for t, v in ts) or sum(abs(v) for t, v in ts) >= pushes
    ks = frozenset(kinds)
    one = lambda k, v: len(kinds.get(k, ())) == 1 and kinds[k][0][1] == v
    for turn in (0, 1):
        if turn:
            flip()
        if ks == {"WS", "NW", "MAX"} and one("WS", 1) and one("NW", 1) and one("MAX", -1):
            return ("fits", True, None) if ub is not None and ub <= 0 else ("fits", False, None) if lb is not None and lb >= 1 else None
        if ks == {"NW", "MAX"} and one("NW", 1) and one("MAX", -1):
            return ("over", False, None) if ub is not None and ub <= 0 else ("over", True, None) if lb is not None and lb >= 1 else None
        if ks == {"WS", "MAX"} and one("WS", 1) and one("MAX", -1):
            return ("excess", False, None) if ub is not None and ub <= 0 else ("excess", True, None) if lb is not None and lb >= 1 else None
        if ks <= {"FV", "FC"} and one("FC", -1) and all(v > 0 for t, v in kinds.get("FV", ())):
            if not counted("FV"):
                return None
            return ("won", True, None) if ub is not None and ub <= -1 else ("won", False, None) if lb is not None and lb >= 0 else None
        if ks <= {"NW", "VW"} and "NW" in ks and one("NW", 1) and all(v < 0 for t, v in kinds.get("VW", ())):
            if not counted("VW"):
                return None
            return ("room", True, None) if ub is not None and ub <= 0 else ("room", False, None) if lb is not None and lb >= 1 else None
        if ks <= {"VW", "ARG"} and one("ARG", -1) and all(v > 0 for t, v in kinds.get("VW", ())):
            a = kinds["ARG"][0][0]
            return ("below", True, a) if ub is not None and ub <= -1 else ("below", False, a) if lb is not None and lb >= 0 else None
    return None


class CapRule(MR.MaintRule):
    victim_removals = 0
    passes = None

    def __init__(self, *a, **k):
        MR.MaintRule.__init__(self, *a, **k)
        self.limits = []
        self.evictions = self.admits = self.rejects = self.reads = 0
        self.picked = 0

    def fresh(self, st):
        """the shared weighted size still is the present one"""
        return False

    def inline(self, p):
        return p.endswith("Deques::<K>::select_mut") or MR.MaintRule.inline(self, p)

    def model(self, eng, st, ev):
        op = st.ts[2]
        if op and not st.ts[3]:
            if FREQ.search(ev.name) and not any(op[0][1] in subs(eng.deref_val(st, a)) for a in ev.args[1:]):
                self.setcap(st, "asked f", min((cap(op, "asked f") or 0) + 1, 2))
            elif WEIGHT.search(ev.name) and op[0][1] not in subs(eng.deref_val(st, ev.args[0])):
                self.setcap(st, "asked w", min((cap(op, "asked w") or 0) + 1, 2))
        return MR.MaintRule.model(self, eng, st, ev)

    def setcap(self, st, kind, val):
        labs, held, op, rem = st.ts
        if op:
            op = tuple(x for x in op if not (x[0] == "cap" and x[1] == kind)) + (("cap", kind, val),)
            # the answers carry no order
            head = [x for x in op if x[0] != "cap"]
            op = tuple(head[:1]) + tuple(sorted((x for x in op if x[0] == "cap"), key=lambda x: x[1])) + tuple(head[1:])
            st.ts = (labs, held, op, rem)
        elif kind in ("excess", "evicted", "state", "owed", "pass"):
            self.setmark(st, N("mark", kind, val))

    def setmark(self, st, m):
        labs, held, op, rem = st.ts
        held = tuple(x for x in held if not (x.op == "mark" and (x.a[0],) + x.a[2:] == (m.a[0],) + m.a[2:])) + (m,)
        held = tuple(x for x in held if x.op != "mark") + tuple(sorted((x for x in held if x.op == "mark"), key=lambda x: (x.a[0], [y.n for y in x.a[2:]])))
        st.ts = (labs, held, op, rem)

    def dropcap(self, st, kinds):
        labs, held, op, rem = st.ts
        st.ts = (labs, tuple(x for x in held if not (x.op == "mark" and x.a[0] in kinds)),
                 tuple(x for x in op if not (x[0] == "cap" and x[1] in kinds)), rem)

    def fact(self, eng, st, atom, val):
        if atom.op in ("le", "lt", "eq"):
            op = st.ts[2][0][1] if st.ts[2] else None
            n = cap(st.ts[2], "victims") or 0 if op is not None else mark(st.ts[1], "evicted") or 0
            c = classify(atom, val, op, n, st, self.fresh(st), (cap(st.ts[2], "asked f") or 0, cap(st.ts[2], "asked w") or 0) if op is not None else (9, 9))
            if c and c[0] == "below":
                if not op:
                    self.setmark(st, N("mark", "below", c[1], c[2]))
            elif c:
                self.setcap(st, c[0], c[1])
        return MR.MaintRule.fact(self, eng, st, atom, val)

    def pushed(self, eng, st, v, ev):
        labs, held, op, rem = st.ts
        if op and any(x.op == "call" and x.a[0] == "AtomicInstant::instant" for x in subs(v)):
            n = cap(op, "victims") or 0
            self.dropcap(st, ("won", "room"))
            self.picked += 1
            self.verdict1(st, "cap", from_front(v), "victim-front", "a victim is chosen that does not come from the front (the least recently used end) of the access-order queue: %s" % A.pp(v, 3), ev.fn)
            self.setcap(st, "victims", min(n + 1, 2))
        return MR.MaintRule.pushed(self, eng, st, v, ev)


    def on(self, eng, st, ev):
        r = MR.MaintRule.on(self, eng, st, ev)
        if ev.kind == "removed" and st.ts[3] and not st.ts[2] and ev.site == st.ts[3][0][2].a[-1]:
            n = mark(st.ts[1], "evicted") or 0
            self.dropcap(st, ("below", "excess"))
            if "la=" in {k for w, k in st.ts[3][0][4] if w == "v"}:
                self.setcap(st, "evicted", min(n + 1, 2))
        return r


def from_front(v):
    xs = subs(v)
    if any(x.op == "call" and (BACK.search(x.a[0]) or FRONT.search(x.a[0]) and any(y.op == "fld" and y.a[1] == "write_order" for y in subs(x))) for x in xs):
        return False
    return any(source(x) == "front" for x in xs) or has_src(v, "front")


def cap(ep, kind):
    for x in ep:
        if x[0] == "cap" and x[1] == kind:
            return x[2]
    return None


def mark(held, kind):
    for x in held:
        if x.op == "mark" and x.a[0] == kind:
            return x.a[1]
    return None


def judge_cap(rule, eng, st, which, ep, how):
    out = []
    maxc = conf(rule, st, "max_capacity")
    pol = conf(rule, st, "eviction_policy")
    if which == "rem":
        if ep[0][0] == "drain":
            return out
        kind, ck, v, caps, labs, held, hsh = ep[0]
        on_v = {k for w, k in labs if w == "v"}
        on_e = {k for w, k in labs if w == "e"}
        if on_v & (EXP | {"va"}) or "phit" in on_v | on_e:
            return out
        op = st.ts[2]
        if "same" in on_v and "gen=" in on_v:
            return out          # the rejected candidate: judged with its operation
        if "la=" not in on_v:
            return out
        if op:
            if not cap(op, "victims") and any(x.op == "item" for x in subs(ck) | {y for c in caps for y in subs(c)}):
                return out      # an element of a list nothing was put into
            rule.victim_removals += 1
            out.append(("cap", maxc == "Some", "evict-unbounded", "an entry is evicted for size although no maximum capacity is set"))
            out.append(("cap", pol == "TinyLfu", "victim-policy", "a victim is evicted to make room for a newcomer although the policy is not TinyLFU"))
            out.append(("cap", cap(op, "won") is True, "victim-won", "a victim is evicted for a newcomer whose estimated frequency was not found to be higher than that of all its victims together"))
            out.append(("cap", cap(op, "room") is True, "victim-room", "victims are evicted for a newcomer although together they do not weigh at least as much as it"))
            out.append(("cap", cap(op, "fits") is False, "victim-fits", "a victim is evicted for a newcomer for which there was room"))
        else:
            rule.evictions += 1
            out.append(("cap", any(from_front(c) for c in caps + (ck,) + ((hsh,) if isinstance(hsh, A.Node) else ())), "evict-front",
                        "the entry evicted for size does not come from the front (the least recently used end) of the access-order queue"))
            below = frozenset(x.a[2] for x in held if x.op == "mark" and x.a[0] == "below" and x.a[1] is True)
            if not mark(held, "excess"):
                rule.limits.append(below)
            ok = bool(below) or mark(held, "excess") is True
            out.append(("cap", ok, "evict-below", "an entry is evicted for size although the cache was not found to be over its capacity by more than what this pass already evicted"))
        return out
    op = ep[0][1]
    if variant(st, op) in ("Hit", "Miss") and how != "cancel":
        inc = [x[1] for x in ep if x[0] == "inc"]
        rule.reads += 1
        out.append(("cap", len(inc) == 1 and op in subs(inc[0]), "read-inc", "a processed read does not raise the popularity of its key exactly once (%s)" % [A.pp(x, 2) for x in inc]))
    if variant(st, op) != "Upsert" or how == "cancel":
        return out
    e = N("fld", N("as", op, "Upsert"), "value_entry")
    adm = [x[2] for x in ep if x[0] == "adm" and MR_same(x[1], e)]
    if not adm or adm[0]:
        return out
    fits, over, won, room = (cap(ep, k) for k in ("fits", "over", "won", "room"))
    known = "fits: %s, heavier than the capacity: %s, more frequent than its victims: %s, victims heavy enough: %s" % (fits, over, won, room)
    admitted = bool(idx(ep, "dq:push_back_ao", e)) or any(x[0] == "set_admitted" and MR_same(x[1], e) and x[2] is K(1) for x in ep)
    if admitted:
        rule.admits += 1
        ok = maxc == "None" or fits is True or over is False and (pol == "Lru" or pol == "TinyLfu" and won is True and room is True)
        out.append(("cap", ok, "admit", "a newcomer is admitted although neither there was room nor the policy let it in (%s)" % known))
    else:
        rule.rejects += 1
        ok = maxc == "Some" and (over is True or pol == "TinyLfu" and fits is False and (won is False or room is False))
        out.append(("cap", ok, "reject", "a newcomer is turned away although there was room or the policy would have let it in (%s)" % known))
    return out


def MR_same(x, e):
    return x is e or x is MR.info_of(e)
