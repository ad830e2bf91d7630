"""C01-C05: visibility of entries to readers."""
import re
import absint as A
import lib
import rules_reads as R
from par import pmap
from absint import subs
from lib import has_fld

NAMES = {
    "ent": "the entry's own expiration time (set by the Expiry policy)",
    "ttl": "time-to-live since the last write",
    "tti": "time-to-idle since the last access",
    "va": "the invalidate_all time stamp",
    "inv": "the registered invalidation predicates",
    "invf": "(after the registered predicates) whether a finished predicate removed the entry",
}


def short(root):
    return re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", root)).replace("::::", "::").strip("<> ")


def _runs(P, res):
    roots = R.read_roots(P)
    out = []
    for root, (st, r) in zip(roots, pmap(lambda x: R.analyse_root(P, x), roots)):
        if st == "err":
            res.bad("engine:" + short(root), "analysis failed: " + r, root)
            continue
        obs, stats = r
        out.append((root, obs))
        res.fns |= set(stats["fns"])
        res.stats["calls analysed"] = res.stats.get("calls analysed", 0) + stats["calls"]
        res.stats["block visits"] = res.stats.get("block visits", 0) + stats["steps"]
    res.floor("public read operations", len(out), 55)
    return out


def exposure(P, res, labels):
    n = 0
    for root, obs in _runs(P, res):
        exp = [o for o in obs if o[0] in ("exit", "arg", "phantom", "stale")]
        res.ob(bool(exp), "unanalysed:" + short(root),
               "no path on which %s exposes a cached value was found; the rule has lost its anchor" % short(root), root)
        for kind, _, loc, labs, trail in exp:
            ok = {l for l, x in labs if x}
            how = {"exit": "returns", "arg": "passes to a user closure", "phantom": "reports present",
                   "stale": "returns"}[kind]
            for l in labels:
                n += 1
                if kind == "phantom":
                    continue
                good = l in ok
                res.ob(good, "exposed:%s:%s:%s" % (short(root), kind, l),
                       "a path of %s %s a looked-up entry without having checked %s (established: %s)"
                       % (short(root), how, NAMES[l], ", ".join(sorted(ok)) or "nothing"), loc, trail)
            if n < 60:
                res.sample("%s %s: established %s" % (short(root), how, sorted(ok & set(NAMES))))
    res.floor("exposure obligations", n, 60 * len(labels))


def c01(P, res, tier):
    exposure(P, res, ["ent", "ttl", "tti"])


# --------------------------------------------------------------------------- segments
class EachSegment(lib.BaseRule):
    """On every path to the normal exit, `effect(ev)` happened for the cache itself or for
    every item of an iteration over `segments`."""
    stop = ("housekeeper",)

    def __init__(self, effect, inl=None):
        self.effect = effect
        self.bad = []
        self.hits = 0
        self.inl = inl

    def inline(self, p):
        return lib.BaseRule.inline(self, p) and (self.inl is None or self.inl(p))

    # ts = (done, pending item?, iteration finished?)
    def init(self):
        return (False, False, False)

    def on(self, eng, st, ev):
        done, pend, fin = st.ts
        if ev.kind == "iter_item" and has_fld(ev.args[0], "segments"):
            if pend:
                self.bad.append(("skips", ev, st))
            st.ts = (done, True, fin)
        elif ev.kind == "iter_end" and has_fld(ev.args[0], "segments"):
            if pend:
                self.bad.append(("skips", ev, st))
            st.ts = (done, False, True)
        else:
            if self.effect(eng, st, ev):
                self.hits += 1
                st.ts = (True, False, fin)
        return None


def each_segment(P, res, root, effect, what, inl=None):
    rule = EachSegment(effect, inl)
    eng = A.Engine(P, rule, lib.BASE_MODELS)
    ex = eng.run(root)
    res.cover(eng)
    seg = "SegmentedCache" in root
    ok = [e for e in ex if e.kind == "ret"]
    res.ob(bool(ok), "noexit:" + short(root), "%s has no analysed normal exit" % short(root), root)
    res.ob(rule.hits > 0, "effect:" + short(root), "%s never %s" % (short(root), what), root)
    for k, ev, st in rule.bad:
        res.bad("segment-skipped:" + short(root), "a path of %s leaves a segment where it never %s" % (short(root), what), ev.loc(eng))
    for e in ok:
        done, pend, fin = e.st.ts
        if isinstance(e.val, A.Node) and A.isagg(e.val, A.RES, "Err"):
            res.ob(True, "", "")
            continue
        if seg:
            res.ob(fin and not pend, "segments:" + short(root),
                   "a path of %s returns without visiting every segment" % short(root), root, e.st.trail())
        else:
            res.ob(done, "missing:" + short(root), "a path of %s returns although it never %s" % (short(root), what),
                   root, e.st.trail())


def roots_named(P, names):
    rx = re.compile(r"::(Cache|SegmentedCache)::<K, V, S>::(%s)$" % "|".join(names))
    return sorted(p for p, f in P.fns.items() if f.get("reach") and f["kind"] == "fn" and rx.search(p))


def c02(P, res, tier):
    exposure(P, res, ["va"])

    def eff(eng, st, ev):
        if ev.kind == "call" and ev.name.startswith("common::time::") and ev.name.endswith("::set_instant"):
            t = eng.deref_val(st, ev.args[0])
            v = eng.deref_val(st, ev.args[1])
            return t.op == "fld" and t.a[1] == "valid_after" and v.op == "now"
        return False
    roots = roots_named(P, ["invalidate_all"])
    res.floor("invalidate_all entry points", len(roots), 3)
    for r in roots:
        each_segment(P, res, r, eff, "stores the current time as the invalidation time stamp")
    # nobody else moves the time stamp
    writers = set()
    for p, f in P.fns.items():
        for c, args in direct_calls(f):
            if c and c.startswith("common::time::") and re.search(r"::(set_instant|clear)$", c):
                if "valid_after" in field_trace(f, args[0]):
                    writers.add(p)
    res.floor("writers of the invalidation time stamp", len(writers), 2)
    allowed = P.closure(roots)
    for w in sorted(writers):
        res.fns.add(w)
        res.ob(w in allowed, "writer:" + short(w), "%s writes the invalidation time stamp but is not part of invalidate_all" % short(w), w)
        for c in transitive_callers(P, w):
            f = P.fns[c]
            if f.get("reach") and f["kind"] == "fn":
                res.ob(c in roots, "writer-root:" + short(c),
                       "public operation %s can move the invalidation time stamp" % short(c), c)


def direct_calls(f):
    for b in f["blocks"]:
        t = b["t"]
        if t["k"] == "call":
            o = t["f"]
            if o[0] == "k" and "fn" in o[1]:
                yield (o[1].get("res") or o[1]["fn"]), t["a"]


def field_trace(f, o, depth=6):
    """Field names syntactically on the way to an operand (through reborrows in one body)."""
    out = set()
    if o[0] == "k":
        return out
    seen = set()
    work = [o[1]]
    while work and depth:
        pl = work.pop()
        for e in pl[1]:
            if isinstance(e, list) and e[0] == "f":
                out.add(e[2])
        if pl[0] in seen:
            continue
        seen.add(pl[0])
        for b in f["blocks"]:
            for s in b["s"]:
                if s[0] == "=" and s[1][0] == pl[0] and not s[1][1]:
                    rv = s[2]
                    if rv[0] == "ref":
                        work.append(rv[2])
                    elif rv[0] == "use" and rv[1][0] != "k":
                        work.append(rv[1][1])
            t = b["t"]
            if t["k"] == "call" and t["d"][0] == pl[0] and not t["d"][1]:
                for a in t["a"][:1]:
                    if a[0] != "k":
                        work.append(a[1])
    return out


def transitive_callers(P, w):
    seen = set()
    work = [w]
    while work:
        x = work.pop()
        for c in P.callers.get(x, ()):
            if c not in seen and c in P.fns:
                seen.add(c)
                work.append(c)
    return seen


# --------------------------------------------------------------------------- C04
def c04(P, res, tier):
    n = 0
    for root, obs in _runs(P, res):
        for kind, _, loc, labs, trail in obs:
            if kind == "phantom":
                res.bad("phantom:" + short(root), "%s reports a key present that the table lookup did not find" % short(root), loc, trail)
                continue
            if kind not in ("absent", "init"):
                continue
            n += 1
            dead = sorted({l for l, x in labs if not x})
            what = "reports a looked-up entry absent" if kind == "absent" else "runs the caller's initializer although the key was found"
            res.ob(bool(dead), "hidden:%s:%s" % (short(root), kind),
                   "a path of %s %s without having established that it is expired or invalidated (checks passed: %s)"
                   % (short(root), what, ", ".join(sorted(l for l, x in labs if x)) or "none"), loc, trail)
            if n < 40:
                res.sample("%s %s because of: %s" % (short(root), what, dead))
    res.floor("absent/initializer outcomes after a successful lookup", n, 400)


# --------------------------------------------------------------------------- C05
HITS = re.compile(r"::(get|get_with\w*|optionally_get_with\w*|try_get_with\w*|get_or_\w+|or_\w+|and_\w+)$")


def c05(P, res, tier):
    n = 0
    for root, obs in _runs(P, res):
        quiet = root.endswith("contains_key") or root.endswith("scanning_get")
        for kind, _, loc, labs, trail in obs:
            l = {x for x, _ in labs}
            if kind in ("exit", "arg", "absent", "init"):
                n += 1
                res.ob("lm:set" not in l, "write-time:" + short(root),
                       "%s, a read, moves the entry's last-modified time" % short(root), loc, trail)
            if quiet:
                bad = sorted(x for x in l if x.startswith(("la:", "op:")))
                res.ob(not bad, "not-quiet:" + short(root),
                       "%s must leave idle time and popularity alone, but a path records an access (%s)" % (short(root), bad), loc, trail)
            elif kind in ("exit", "arg"):
                if "needs-no-access" in l:
                    continue
                res.ob("op:Hit" in l or ("ever:rec" in l and "op:wrong" not in l and "op:Miss" not in l), "no-hit:" + short(root),
                       "a path of %s exposes the value without recording the hit" % short(root), loc, trail)
                res.ob("la:max" in l or "la:now" in l, "no-access:" + short(root),
                       "a path of %s exposes the value without moving its last access to the current time" % short(root), loc, trail)
                if n < 30:
                    res.sample("%s exposes: %s" % (short(root), sorted(x for x in l if ":" in x)))
    res.floor("read outcomes", n, 500)

    monotone_instants(P, res)


def monotone_instants(P, res):
    """Every store to an AtomicInstant replaces an unset or an older instant."""
    import atomics as T
    roots = [p for p, f in P.fns.items() if re.search(r"common::time::.*AtomicInstant::\w+$", p) and f["kind"] == "fn"
             and not re.search(r"::(new|default|instant|is_set)$", p)]
    res.floor("operations that write an atomic instant", len(roots), 1)
    for root in roots:
        r, eng, ex = T.analyse(P, root, "instant")
        res.cover(eng)
        for st, cur, new, ev in r.pub:
            unset = K64
            ok = cur is not None and (T.holds_le(eng, st, cur, new) or T.holds_eq(eng, st, cur, unset) or
                                      (new.op == "op" and new.a[0] == "fetch_max"))
            res.ob(ok, "backwards:" + short(root), "%s can replace a later instant with an earlier one" % short(root), ev.loc(eng), st.trail())
        if root.endswith("set_instant"):
            for e in ex:
                cur, n = e.st.ts
                if n:
                    continue
                arg = A.N("pure", "as_nanos", (A.N("arg", "instant"),))
                ok = cur is not None and any(a.op == "le" and a.a[1] is cur and v is True or a.op == "le" and a.a[0] is cur and v is False or
                                             a.op == "eq" and cur in a.a and v is True
                                             for a, v in e.st.facts.items())
                res.ob(ok, "not-set:" + short(root), "%s can return without storing a later instant" % short(root), root, e.st.trail())


K64 = A.K(2 ** 64 - 1)


# --------------------------------------------------------------------------- C03
def c03(P, res, tier):
    import checks_inval
    exposure(P, res, ["inv", "invf"])
    checks_inval.inval(P, res)
