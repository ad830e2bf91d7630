"""Read-side rules: which looked-up entries may become visible to a caller.

For every public operation that can expose a cached value (and for the iterator's
per-key getter) every path is followed from the public entry point through the concurrent
map lookup to (a) the value returned, (b) a value handed to a user closure, or (c) an
"absent" outcome.  On the way the rule collects, per looked-up entry, which visibility
tests the path has established:

    ent  the per-entry expiration time is unset or later than a clock read
    ttl  time-to-live is unset, or last_modified + ttl is later than a clock read
    tti  time-to-idle is unset, or last_accessed + tti is later than a clock read
    va   last_modified is not older than the invalidate_all time stamp
    inv  every registered predicate was either newer-than-the-entry or answered false
    invf after that, the entry was not marked as removed by a finished predicate

A path that exposes the entry must have established all of them; a path that reports it
absent must have established the negation of at least one.
"""
import re
import absint as A
import lib
from absint import N, NONE, isagg, subs
from lib import BaseRule, has_fld, Result
from expiry import EXPIRY, is_expiry, deadline_verdict

READS = re.compile(r"::(contains_key|get|get_with\w*|optionally_get_with\w*|try_get_with\w*|get_or_\w+|or_\w+|and_\w+)$")
LIVE = ("ent", "ttl", "tti")


def main_map_fields(P):
    """Struct fields holding the hash table whose values are the cached entries."""
    out = set()
    for a in P.adts.values():
        if a["path"].startswith("cht::"):
            continue
        for _, fs in a["variants"]:
            for f in fs:
                if "HashMap<" in f[1] and "ValueEntry<" in f[1]:
                    out.add(f[0])
    return out


def is_main(mf, t):
    while t.op in ("ref",):
        return False
    return t.op == "fld" and t.a[1] in mf


def entry_site(t):
    """sites of the looked-up entries a term talks about"""
    return {x.a[0] for x in subs(t) if x.op in ("chtval", "chtold")}


def is_now(t):
    return t.op == "now"


def unwrap(t):
    """payload of an option term"""
    if t.op == "fld" and t.a[1] == "0":
        t = t.a[0]
        if t.op == "as":
            t = t.a[0]
    return t


def instant_of(t, name):
    t = unwrap(t)
    if t.op == "call" and t.a[0] == "AtomicInstant::instant":
        f = t.a[1][0]
        return f.op == "fld" and f.a[1] == name
    return False


def exp_of(t):
    t = unwrap(t)
    return t.op == "call" and t.a[0] == "EntryInfo::expiration"


def classify(atom, val):
    """-> list of (site, label, ok?) established by atom == val"""
    out = []
    if atom.op == "var":
        t = atom.a[0]
        if val == "None":
            if exp_of(t):
                for s in entry_site(t):
                    out.append((s, "ent", True))
            elif t.op == "fld" and t.a[1] == "time_to_live":
                out.append((None, "ttl", True))
            elif t.op == "fld" and t.a[1] == "time_to_idle":
                out.append((None, "tti", True))
            elif t.op == "fld" and t.a[1] == "expiry":
                out.append((None, "er:none", True))
            elif t.op == "fld" and t.a[1] == "invalidator":
                out += [(None, "inv", True), (None, "invf", True)]
            elif instant_of(t, "valid_after"):
                out.append((None, "va", True))
            elif instant_of(t, "last_modified"):
                for s in entry_site(t):
                    out += [(s, "ttl", True), (s, "va", True), (s, "inv", True)]
            elif instant_of(t, "last_accessed"):
                for s in entry_site(t):
                    out += [(s, "tti", True)]
    elif atom.op == "le":
        a, b = atom.a
        # canonical: a <= b
        for (x, y, v, strict) in ((a, b, val, False),):
            # deadline <= now
            if is_now(y):
                lab = None
                if exp_of(x):
                    lab = "ent"
                elif x.op == "tadd":
                    d = unwrap(x.a[1])
                    if instant_of(x.a[0], "last_modified") and d.op == "fld" and d.a[1] == "time_to_live":
                        lab = "ttl"
                    elif instant_of(x.a[0], "last_accessed") and d.op == "fld" and d.a[1] == "time_to_idle":
                        lab = "tti"
                if lab:
                    for s in entry_site(x):
                        out.append((s, lab, not v))
            # va <= lm
            if instant_of(x, "valid_after"):
                if instant_of(y, "last_modified"):
                    for s in entry_site(y):
                        out.append((s, "va", bool(v)))
                elif instant_of(y, "last_accessed") and not v:
                    for s in entry_site(y):
                        out.append((s, "va", False))
            # now <= deadline false  =>  deadline < now
            if is_now(x) and not v:
                if exp_of(y):
                    for s in entry_site(y):
                        out.append((s, "ent", False))
                elif y.op == "tadd":
                    if instant_of(y.a[0], "last_modified") and has_fld(y.a[1], "time_to_live"):
                        for s in entry_site(y):
                            out.append((s, "ttl", False))
                    if instant_of(y.a[0], "last_accessed") and has_fld(y.a[1], "time_to_idle"):
                        for s in entry_site(y):
                            out.append((s, "tti", False))
            # lm <= registered_at
            if instant_of(x, "last_modified") and y.op == "fld" and y.a[1] == "registered_at":
                for s in entry_site(x):
                    out.append((s, "pold" if v else "pskip", True))
    elif atom.op == "call" and atom.a[0] == "<user>":
        f = atom.a[1][0]
        if any(x.op == "item" for x in subs(f)):
            for s in set().union(*[entry_site(x) for x in atom.a[1][1:]] or [set()]):
                out.append((s, "phit" if val else "pskip", True))
        elif val:
            for s in set().union(*[entry_site(x) for x in atom.a[1][1:]] or [set()]):
                out.append((s, "usr", True))
    elif atom.op == "call" and re.search(r"Atomic\w*::(<.*>::)?load$", atom.a[0]) and atom.a[1] and has_fld(atom.a[1][0], "is_empty"):
        if val and has_fld(atom.a[1][0], "invalidator"):
            out.append((None, "inv", True))
    elif atom.op == "call" and re.search(r"Atomic\w*::(<.*>::)?load$", atom.a[0]) and atom.a[1] and has_fld(atom.a[1][0], "is_invalidated"):
        for s in entry_site(atom.a[1][0]):
            out.append((s, "invf", not val))
    elif atom.op == "pure" and atom.a[0].endswith("is_empty") and has_fld(atom, "predicates"):
        if val:
            out.append((None, "inv", True))
    return out


def is_clock(t):
    """a point in time derived from this operation's clock read (or the entry's last write,
    when that is later)"""
    return any(x.op == "now" for x in subs(t))


class ReadRule(BaseRule):
    stop = ("housekeeper", "apply_reads_if_needed", "apply_reads_writes_if_needed", "schedule_write_op", "run_pending_tasks",
            "common::timer_wheel", "notify_", "::notifier")
    opaque_yields = True

    def __init__(self, mf):
        self.mf = mf
        self.seen_sites = set()
        self.served = []
        self.inits = 0
        self.lookups = set()

    # ts = (current lookup site or None, found?, frozenset of labels "site/label/ok", item flags)
    def init(self):
        return (None, False, frozenset(), frozenset())

    def fact(self, eng, st, atom, val):
        ls = classify(atom, val)
        if not ls:
            return None
        cur, found, labs, it = st.ts
        labs = set(labs)
        it = set(it)
        for s, l, ok in ls:
            if s is None:
                s = cur
            if s is None or s != cur:
                continue
            if l in ("pold", "pskip", "phit"):
                it.add(l)
                if {"pold", "phit"} <= it:
                    labs.add(("inv", False))
                if l == "pskip":
                    it.discard("open")
            elif l == "usr":
                labs.add(("usr", False))
            elif l == "invf":
                # the removal mark only tells something once the predicates were read
                if not ok:
                    labs.add(("inv", False))
                elif ("inv", True) in labs:
                    labs.add(("invf", True))
            else:
                labs.add((l, ok))
        st.ts = (cur, found, frozenset(labs), frozenset(it))
        return None

    def model(self, eng, st, ev):
        n = ev.name
        if "EntryInfo" in n and n.endswith("::expiration_state"):
            i = eng.deref_val(st, ev.args[0])
            v = N("call", "EntryInfo::expiration", (i,), ev.site)
            eng.kill_facts(st, v)
            eng.kill_facts(st, N("var", v))
            return [(st, A.TUP(v, N("call", "EntryInfo::expiry_gen", (i,), ev.site)))]
        m = EXPIRY.search(n)
        if m:
            a = [eng.deref_val(st, x) for x in ev.args[1:]]
            cur, found, labs, it = st.ts
            ok = m.group(4) == "expire_after_read" and a[1].op == "fld" and a[1].a[1] == "value" and cur in entry_site(a[1]) and is_clock(a[2]) \
                and len(a) > 4 and any(instant_of(x, "last_modified") and cur in entry_site(x) for x in subs(a[4]))
            st.ts = (cur, found, labs | {("er:read" if ok else "er:wrong", True), ("ever:er", True)}, it)
            v = N("call", "Expiry::" + m.group(4), tuple(a), ev.site)
            eng.kill_facts(st, v)
            eng.kill_facts(st, N("var", v))
            return [(st, v)]
        if "EntryInfo" in n and n.endswith("::set_expiration_time"):
            v = deadline_verdict(st, eng.deref_val(st, ev.args[1]))
            cur, found, labs, it = st.ts
            st.ts = (cur, found, labs | {("es:" + (v or "ok"), True)}, it)
            return [(st, N("call", "EntryInfo::expiry_gen", (), ev.site))]
        return None

    def on(self, eng, st, ev):
        k = ev.kind
        cur, found, labs, it = st.ts
        if k == "lookup":
            m = eng.deref_val(st, ev.args[0])
            if is_main(self.mf, m):
                self.lookups.add((ev.fn, ev.name))
                # start over for this site
                st.ts = (ev.site, False, frozenset(l for l in labs if l[0].startswith("ever:")), frozenset())
        elif k == "found":
            m = eng.deref_val(st, ev.args[0])
            if is_main(self.mf, m):
                # disabled features are path facts: take them over
                labs = {l for l in labs if l[0].startswith("ever:")}
                for a, v in st.facts.items():
                    for s, l, ok in classify(a, v):
                        if s is None and a.op == "var":
                            labs.add((l, ok))
                st.ts = (ev.site, True, frozenset(labs), frozenset())
        elif k == "iter_item":
            if has_fld(ev.args[0], "predicates"):
                st.ts = (cur, found, labs, frozenset(["open"]))
        elif k == "iter_end":
            if has_fld(ev.args[0], "predicates") and "open" not in it:
                st.ts = (cur, found, labs | {("inv", True)}, it)
        elif k == "call":
            n = ev.name
            if n.startswith("common::time::") and n.endswith("::set_instant"):
                tgt = eng.deref_val(st, ev.args[0])
                val = eng.deref_val(st, ev.args[1])
                if tgt.op == "fld" and tgt.a[1] == "last_accessed" and cur in entry_site(tgt):
                    l = "la:max" if (val.op == "max" and any(is_now(x) for x in val.a) and
                                     any(instant_of(x, "last_modified") and cur in entry_site(x) for x in val.a)) else (
                        "la:now" if is_now(val) else "la:other")
                    st.ts = (cur, found, labs | {(l, True)}, it)
                elif tgt.op == "fld" and tgt.a[1] == "last_modified" and cur in entry_site(tgt):
                    st.ts = (cur, found, labs | {("lm:set", True)}, it)
            elif n.endswith("::try_send") or n.endswith("::send"):
                v = eng.deref_val(st, ev.args[1]) if len(ev.args) > 1 else A.UNIT
                if isagg(v) and isinstance(v.a[0], str) and v.a[0].endswith("::ReadOp"):
                    l = "op:" + v.a[1]
                    if v.a[1] == "Hit" and cur not in entry_site(v):
                        l = "op:wrong"
                    new = {(l, True), ("ever:rec", True)}
                    x = A.field(v, "is_expiry_modified")
                    if x is not None:
                        new.add(("hm:%s" % (x.a[0] if x.op == "k" else "?"), True))
                    st.ts = (cur, found, labs | new, it)
        elif k == "user":
            f = ev.args[0]
            fv = eng.deref_val(st, f)
            if any(x.op == "arg" and x.a[0] != "self" for x in subs(fv)):
                vals = [eng.deref_val(st, a) for a in ev.args[1:]]
                return self.user(eng, st, ev, vals)
        elif k == "poll" and ev.name == "<leaf>":
            c = eng.deref_val(st, ev.args[0])
            while c.op in ("fld", "as"):
                c = c.a[0]
            if c.op == "arg" and c.a[0] not in ("self", "key"):
                return self.user(eng, st, ev, [])
        return None

    def user(self, eng, st, ev, vals):
        cur, found, labs, it = st.ts
        shown = any(shows(v, cur) for v in vals)
        if shown:
            if ev.dty == "bool":
                # a predicate deciding whether to ignore the entry; it decides nothing
                # that an unexpired entry would not also allow
                return None
            self.served.append(("arg", ev, labs, st, None))
            return []
        if found:
            self.served.append(("init", ev, labs, st, None))
        self.inits += 1
        # what the user code computes from here on is not a read of the cache
        return []


def shows(v, site):
    for x in subs(v):
        if x.op == "fld" and x.a[1] == "value" and x.a[0].op in ("chtval", "chtold") and (site is None or x.a[0].a[0] == site):
            return True
    return False


def read_roots(P):
    roots = []
    for p, f in P.fns.items():
        if f["kind"] != "fn":
            continue
        if f.get("reach") and READS.search(p) and ("::Cache::<" in p or "SegmentedCache::<" in p or "EntrySelector::<" in p):
            roots.append(p)
        elif p.endswith("::scanning_get") and f["kind"] == "fn" and "base_cache" in p:
            roots.append(p)
    return sorted(roots)


_memo = {}


def analyse_root(P, root):
    """-> (list of observation records, stats)"""
    if root in _memo:
        return _memo[root]
    mf = main_map_fields(P)
    r = ReadRule(mf)
    eng = A.Engine(P, r, lib.BASE_MODELS)
    obs = []
    ex = eng.run(root)
    for e in ex:
        if e.kind != "ret":
            continue
        v = eng.deref_val(e.st, e.val)
        cand = [(e.st, v)]
        if root.endswith("contains_key"):
            if v.op == "agg":
                cand = []
            else:
                cand = [(s, A.K(b)) for s, b in eng.fork_bool(e.st, v)]
        for s, v in cand:
            cur, found, labs, it = s.ts
            loc = "exit of " + root
            if root.endswith("contains_key"):
                kind = "exit" if v is A.TRUE else "absent"
                if kind == "exit" and not found:
                    obs.append(("phantom", root, "exit", frozenset(), tuple(s.trail())))
                    continue
            elif shows(v, cur):
                kind = "exit"
            elif shows(v, None):
                kind = "stale"
            elif v is NONE:
                kind = "absent"
            else:
                continue
            if kind == "absent" and not found:
                continue
            obs.append((kind, root, loc, labs, tuple(s.trail())))
    for kind, ev, labs, st, _ in r.served:
        obs.append((kind, root, "%s" % (ev.fn,), labs, tuple(st.trail())))
    stats = dict(calls=eng.visited_calls, steps=eng.steps, fns=sorted(eng.visited_fns), lookups=sorted(r.lookups))
    _memo[root] = (sorted(set(obs), key=repr), stats)
    return _memo[root]
