"""C13-C16: single flight, waiter life cycle, compute operations, Entry metadata."""
import re
import absint as A
import lib
import rules_flight as F
from absint import N, K, NONE, SOME, UNIT, isagg, field, subs
from checks_reads import short

POISON = re.compile(r"(Panicked|Aborted)$")


class X:
    """One exit of an analysed operation."""

    def __init__(self, root, e):
        self.root = root
        self.kind = e.kind
        self.val = e.val
        self.ts = e.st.ts
        self.facts = e.st.facts
        self.trail = e.st.trail()
        self.compute = bool(re.search(r"compute|upsert", root))
        self.nobody = "nobody_else" in root
        ts = self.ts
        self.iw = self.last("wins")
        self.wins = ts[self.iw] if self.iw is not None else None
        self.users = [i for i, x in enumerate(ts) if x[0] == "user"]
        self.caught = any(x[0] == "caught" for x in ts)

    def ev(self, *k):
        return [x for x in self.ts if x[0] in k]

    def ix(self, *k):
        return [i for i, x in enumerate(self.ts) if x[0] in k]

    def last(self, k):
        r = self.ix(k)
        return r[-1] if r else None

    def answer(self):
        """the caller's final answer: the value of its closure, or of the future it returned"""
        return self.ts[self.users[-1]][2] if self.users else None

    def avars(self):
        """variants established about (parts of) the answer, outermost first"""
        a = self.answer()
        if a is None:
            return []
        out = []
        for f, v in self.facts.items():
            if f.op == "var" and a in subs(f) and base(f.a[0]) is a:
                out.append((len(subs(f.a[0])), v))
        return [v for _, v in sorted(out, key=lambda x: x[0])]

    def content(self):
        for f, v in self.facts.items():
            if f.op == "var" and f.a[0].op == "content":
                return v
        return None

    def steps(self):
        return list(self.trail) + F.show(self.ts)


def base(t):
    while t.op in ("fld", "as"):
        t = t.a[0]
    return t


def has(t, *ys):
    s = subs(t)
    return any(y in s for y in ys)


def entry_parts(t):
    """(variant chain, entry agg) of a returned term"""
    names = []
    while isagg(t):
        if isinstance(t.a[0], str) and t.a[0].endswith("entry::Entry"):
            return names, t
        if t.a[1] is not None:
            names.append(t.a[1])
            if len(t.a[3]) != 1:
                return names, t
            t = t.a[3][0]
            continue
        return names, t
    return names, t


def public_roots(P):
    tgt, pub = F.roots(P)
    R = P.reaches(lambda q: q in tgt)
    return sorted(p for p in pub if p in R)


def exits(P, res, root):
    r = F.FlightRule(cancel="future::" in root)
    eng = A.Engine(P, r, lib.BASE_MODELS)
    ex = [X(root, e) for e in eng.run(root)]
    res.cover(eng)
    for e in ex:
        res.stats["paths ending in " + e.kind] = res.stats.get("paths ending in " + e.kind, 0) + 1
    res.stats["downcasts"] = res.stats.get("downcasts", 0) + len(getattr(r, "down", ()))
    return ex, r


def each(P, res, roots, judge):
    for root in roots:
        try:
            ex, r = exits(P, res, root)
        except A.EngineError as e:
            res.bad("engine:" + short(root), "analysis failed: %s" % e, root)
            continue
        for ok, key, msg, e in judge(root, ex, r):
            res.ob(ok, "%s:%s" % (key, short(root)), msg, root, [] if ok or e is None else e.steps())


# ------------------------------------------------------------------ C14
def handled_by(root, ex):
    """{(module, waiter type): waiter values that callers finding such a waiter can go on from}"""
    out = {}
    for e in ex:
        if e.kind == "ret" or e.wins is not None:
            v = e.content()
            f = e.ev("wfound", "wins")
            if v is not None and f and isagg(f[0][1]):
                out.setdefault((root.split("::")[0], field(f[0][1], "1")), set()).add(v)
    return out


def life(root, ex, r, handled):
    def is_handled(w, v):
        hs = handled.get((root.split("::")[0], field(w[1], "1")), ()) if isagg(w[1]) else ()
        return any(h == v or isinstance(h, tuple) and v not in h[1] for h in hs)
    for e in ex:
        w = e.wins
        rem, rel, ins = e.ix("wrem"), e.ix("wrel"), e.ix("wins")
        if w is None:
            yield not rem, "unowned", "removes a waiter from the registry without having registered its own", e
            continue
        yield len(ins) == 1, "twice", "registers a waiter more than once on one path", e
        cell = w[3]
        lk = [x[0] for x in e.ts[:e.iw] if x[0] in ("wlock", "wrel") and x[1] is cell]
        yield lk[-1:] == ["wlock"], "unlocked", \
            "registers its waiter before holding the waiter's write lock, so another caller could read it unset", e
        key = w[1]
        yield len(rem) == 1, "leak" if not rem else "removed-twice", \
            "%s without removing its waiter from the registry exactly once: every later call for the key would wait for, or read, a dead waiter (%s)" % (
                {"ret": "returns", "unwind": "unwinds", "cancel": "is dropped at an await point"}.get(e.kind, e.kind), len(rem)), e
        for i in rem:
            yield i > e.iw and e.ts[i][1] is key, "wrong-waiter", "removes from the registry by a condition other than equality with its own waiter's key", e
            yield e.ts[i][2] is w[2], "wrong-hash", "removes its waiter under a different hash than it was registered under", e
        yield w[2] is N("whash", key), "hash", "registers its waiter under a hash that is not the registry's hash of the key", e
        rl = [e.ts[i] for i in rel if e.ts[i][1] is cell and i > e.iw]
        yield len(rl) == 1, "locked", "does not release the waiter's write lock exactly once: callers waiting for it hang", e
        for x in rl:
            v = x[2].a[1] if isagg(x[2]) else None
            yield v is not None and v != "Computing", "unset", "releases its waiter while its value is still unset", e
            yield v is None or v == "Computing" or is_handled(w, v), "unhandled", \
                "leaves %s in its waiter, which callers waiting for it do not handle" % v, e


def c14(P, res, tier):
    roots = public_roots(P)
    handled, got = {}, []
    for root in roots:
        try:
            ex, r = exits(P, res, root)
        except A.EngineError as e:
            res.bad("engine:" + short(root), "analysis failed: %s" % e, root)
            continue
        got.append((root, ex, r))
        for k, v in handled_by(root, ex).items():
            handled.setdefault(k, set()).update(v)
    for root, ex, r in got:
        for ok, key, msg, e in life(root, ex, r, handled):
            res.ob(ok, "%s:%s" % (key, short(root)), msg, root, [] if ok or e is None else e.steps())
    res.floor("single-flight operations", len(roots), 45)
    res.floor("cancelled paths", res.stats.get("paths ending in cancel", 0), 100)


# ------------------------------------------------------------------ C13
def flight(root, ex, r):
    cls = "try" if re.search(r"try_(get|insert)", root) else "opt" if "optionally" in root else "plain"
    for e in ex:
        ts = e.ts
        ins, rm = e.ix("insert"), e.ix("remove")
        yield not rm, "removes", "an initializing read removes the entry", e
        run = e.users + e.ix("caught")
        nrun = len({ts[i][1] if ts[i][0] == "user" else "caught" for i in run})
        yield len(e.users) <= 1, "init-twice", "runs the caller's initializer more than once", e
        if run:
            i = min(run)
            ok = e.iw is not None and e.iw < i
            yield ok, "unregistered", "runs the caller's initializer without having registered a waiter for the key, so two callers can initialize it at once", e
            if ok:
                rd = [j for j in e.ix("read") if e.iw < j < i]
                yield bool(rd) and ts[rd[-1]][3] is NONE, "no-recheck", \
                    "runs the caller's initializer without having looked the key up again after registering its waiter", e
                end = [j for j in e.ix("wrem", "wrel") if j > e.iw]
                yield not end or min(end) > i, "early-release", "gives its waiter up before running the caller's initializer", e
        if e.wins is not None:
            k = e.wins[1]
            kk = field(k, "0") if isagg(k) else None
            for x in e.ev("read", "insert"):
                if ts.index(x) > e.iw:
                    yield kk is not None and x[1] is kk, "other-key", "reads or writes the cache under another key than the one it registered", e
            hs = {x[2] for x in e.ev("read", "insert")}
            yield len(hs) <= 1, "other-hash", "reads and writes the cache under different hashes", e
        if ins and not e.users:
            yield False, "spurious-insert", "inserts a value although the caller's initializer was not run to completion", e
        rel = [x for x in e.ev("wrel") if e.wins is not None and x[1] is e.wins[3]]
        pub = rel[-1][2] if rel else None
        if e.kind == "unwind":
            yield not ins, "insert-on-panic", "inserts a value although the initializer panicked", e
            if pub is not None:
                yield isagg(pub) and POISON.search(pub.a[1] or ""), "publish-on-panic", "hands waiting callers %s after the initializer panicked" % A.pp(pub, 3), e
            continue
        if e.kind == "cancel":
            if pub is not None and not ins:
                yield isagg(pub) and POISON.search(pub.a[1] or ""), "publish-on-drop", "hands waiting callers %s after its future was dropped" % A.pp(pub, 3), e
            continue
        v = e.val
        if e.caught:
            yield False, "swallowed", "returns normally although the caller's initializer panicked", e
            continue
        if e.users:
            a = e.answer()
            av = e.avars()
            failed = cls != "plain" and av and av[0] in ("Err", "None")
            if cls != "plain":
                yield bool(av), "outcome", "does not look at the outcome of the caller's initializer", e
            if failed:
                yield not ins, "insert-on-error", "inserts a value although the initializer reported none", e
                yield isagg(pub) and pub.a[1] == "Ready" and isagg(pub.a[3][0]) and pub.a[3][0].a[1] == "Err" and (cls != "try" or has(pub, a)), \
                    "publish-error", "does not hand the initializer's own failure to waiting callers", e
                yield isagg(v) and v.a[1] == ("Err" if cls == "try" else "None") and (cls != "try" or has(v, a)), "return-error", \
                    "does not return the initializer's own failure (%s)" % A.pp(v, 3), e
            else:
                yield len(ins) == 1, "no-insert", "does not insert the initialized value exactly once (%d times)" % len(ins), e
                if len(ins) != 1:
                    continue
                i = ins[0]
                x = ts[i][3]
                good = base(x) is a
                yield good, "insert-other", "inserts something other than what the caller's initializer returned (%s)" % A.pp(x, 3), e
                end = [j for j in e.ix("wrem", "wrel") if j > e.iw] if e.iw is not None else []
                yield i > e.users[-1] and (not end or i < min(end)), "insert-late", \
                    "gives up its waiter before the value is in the cache, so another caller can run its initializer again", e
                yield isagg(pub) and pub.a[1] == "Ready" and isagg(pub.a[3][0]) and pub.a[3][0].a[1] == "Ok" and pub.a[3][0].a[3][0] is x, \
                    "publish-value", "does not hand the inserted value to waiting callers (%s)" % A.pp(pub, 3), e
                yield ret_value(v, cls) is x, "return-value", "does not return the value it inserted (%s)" % A.pp(v, 3), e
            continue
        hits = [x[3] for x in e.ev("read") if x[3] is not NONE]
        if e.wins is not None:
            rd = [x for x in ts[e.iw:] if x[0] == "read"]
            ok = bool(rd) and rd[-1][3] is not NONE
            yield ok, "no-value", "returns without a cached value and without running the initializer", e
            if ok:
                yield isagg(pub) and pub.a[1] == "Ready" and isagg(pub.a[3][0]) and pub.a[3][0].a[1] == "Ok" and base(pub.a[3][0].a[3][0]) is rd[-1][3], \
                    "publish-hit", "does not hand the existing value to waiting callers (%s)" % A.pp(pub, 3), e
                x = ret_value(v, cls)
                yield x is not None and base(x) is rd[-1][3], "return-hit", "does not return the existing value (%s)" % A.pp(v, 3), e
            continue
        if e.ev("wfound"):
            wt = e.ev("wait")
            fo = e.ev("wfound")[-1]
            c = N("content", fo[2])
            yield bool(wt) and wt[-1][1] is fo[2], "no-wait", "returns although another caller is initializing the key, without waiting for it", e
            var = e.content()
            yield var == "Ready", "poisoned", "returns after waiting for a caller whose initialization did not finish (%s)" % (var,), e
            rv = [x for f, x in e.facts.items() if f.op == "var" and base(f.a[0]) is c and f.a[0] is not c]
            if rv and rv[0] == "Err":
                want = {"try": "Err", "opt": "None"}.get(cls)
                yield want is not None and isagg(v) and v.a[1] == want and (cls != "try" or has(v, c)), "waited-error", \
                    "does not return the failure of the caller it waited for (%s)" % A.pp(v, 3), e
            else:
                x = ret_value(v, cls)
                yield x is not None and base(x) is c, "waited-value", "does not return the value of the caller it waited for (%s)" % A.pp(v, 3), e
            continue
        x = ret_value(v, cls)
        yield bool(hits) and x is not None and base(x) is hits[-1], "fast-path", "returns without having found a value or registered a waiter (%s)" % A.pp(v, 3), e
    for fn, var, what in set(getattr(r, "panicked", ())):
        if what.endswith(("unreachable_default_msg", "unwrap")):
            continue
        yield True, "waiter-panics", "", None
    owns = [e for e in ex if e.wins is not None and e.kind == "ret"]
    yield any(e.users for e in owns), "anchor-init", "no path of the operation runs the initializer", None
    waits = [e for e in ex if e.kind == "ret" and e.wins is None and e.ev("wait")]
    yield bool(waits), "anchor-wait", "no path of the operation waits for another caller's initialization", None
    retry = [e for e in ex if e.wins is not None and e.ev("wait") and POISON.search(str(e.content()))]
    yield bool(retry), "anchor-retry", "no path takes over after another caller's initialization panicked", None


def ret_value(v, cls):
    """the value inside a returned V / Entry / Option / Result"""
    if cls == "try":
        if not (isagg(v) and v.a[1] == "Ok"):
            return None
        v = v.a[3][0]
    elif cls == "opt":
        if not (isagg(v) and v.a[1] == "Some"):
            return None
        v = v.a[3][0]
    if isagg(v) and isinstance(v.a[0], str) and v.a[0].endswith("Entry"):
        return field(v, "value")
    if isagg(v) and v.a[1] is not None:
        return None
    return v


def c13(P, res, tier):
    roots = [p for p in public_roots(P) if not re.search(r"compute|upsert", p)]
    each(P, res, roots, flight)
    res.floor("initializing operations", len(roots), 30)
    isolation(P, res)


def isolation(P, res):
    """A waiter is only ever found by callers whose error type is the one it stores."""
    by = {}
    for root in public_roots(P):
        r = F.FlightRule(cancel=False, panics=False)
        eng = A.Engine(P, r, lib.BASE_MODELS)
        try:
            ex = eng.run(root)
        except A.EngineError:
            continue
        tids = {field(e[1], "1") for x in ex for e in x.st.ts if e[0] in ("wins", "wfound") and isagg(e[1])}
        tids = {t.a[0] if t.op == "typeid" else None for t in tids if t is not None}
        mod = root.split("::")[0]
        fam = "compute" if re.search(r"compute|upsert", root) else "init"
        res.ob(len(tids) == 1 and None not in tids, "typeid:" + short(root), "the waiter is not registered under one type (%s)" % tids, root)
        for t in tids:
            res.ob(t is None or re.match(r"param:|(?!std::|core::|alloc::)\w+::", str(t)) is not None, "public-type:" + short(root),
                   "the waiter is registered under %s, which a caller can name as the error type of a fallible operation" % t, root)
            for d in r.down:
                if not re.search(r"[:<]", d) and not re.search(r"[:<]", str(t)):
                    res.ob(d == t, "downcast:" + short(root), "a failure stored under type %s is taken out as %s" % (t, d), root)
            by.setdefault((mod, t), {}).setdefault((fam, tuple(sorted(r.down))), root)
    for (mod, t), fams in sorted(by.items(), key=str):
        res.ob(len(fams) == 1, "isolation:%s:%s" % (mod, t), "operations with different outcome types share waiters of type %s: %s" % (t, sorted(short(x) for x in fams.values())), "")
    res.floor("waiter types", len(by), 8)


# ------------------------------------------------------------------ C15
def compute(root, ex, r):
    upsert = "upsert" in root
    tryc = "try_compute" in root
    for e in ex:
        ts = e.ts
        eff = e.ix("insert", "remove")
        run = e.users + e.ix("caught")
        if run:
            i = min(run)
            ok = e.iw is not None and e.iw < i
            yield ok, "unregistered", "runs the caller's closure without having registered a waiter, so it can run concurrently with another one for the key", e
            rd = [j for j in e.ix("read") if (e.iw or 0) < j < i]
            yield bool(rd), "stale", "hands the caller's closure a value that was not read after its waiter had been registered", e
            if rd and e.users:
                a = ts[e.users[0]][3]
                want = ts[rd[-1]][3]
                arg = a[0] if a else None
                ok = arg is not None and (isagg(arg) and arg.a[1] == "Some" and arg.a[3][0] is want if want is not NONE else arg is NONE)
                yield ok, "argument", "does not hand the caller's closure the current entry", e
        if e.iw is not None:
            end = [j for j in e.ix("wrem", "wrel") if j > e.iw]
            yield all(e.iw < j and (not end or j < min(end)) for j in run + eff), "early-release", \
                "gives its waiter up before its closure and the change of the cache are done, so another computation for the key can interleave", e
            k = e.wins[1]
            kk = field(k, "0") if isagg(k) else None
            for x in e.ev("read", "insert", "remove"):
                yield kk is not None and x[1] is kk, "other-key", "reads or writes the cache under another key than the one it registered", e
        yield len({x[2] for x in e.ev("read", "insert", "remove")}) <= 1, "other-hash", "reads and writes the cache under different hashes", e
        if e.kind in ("unwind",):
            yield not eff, "effect-on-panic", "changes the cache although the caller's closure panicked", e
            continue
        if e.kind == "cancel":
            if not e.users:
                yield not eff, "effect-on-drop", "changes the cache although the caller's closure did not finish", e
            continue
        if e.caught:
            yield False, "swallowed", "returns normally although the caller's closure panicked", e
            continue
        names, ent = entry_parts(e.val)
        if upsert:
            names = ["Ok", "?"] + names
        elif not tryc:
            names = ["Ok"] + names
        rds = [x for x in ts if x[0] == "read" and (e.iw is None or ts.index(x) > e.iw)]
        hit = rds[-1][3] if rds else None
        if e.wins is None:
            yield e.nobody and not eff and not run and hit is not None, "no-flight", "returns without having registered a waiter", e
            yield result_is(names, ent, "StillNone" if hit is NONE else "Unchanged", hit, 0, 0), "nobody-else", \
                "does not report the current entry unchanged although another computation is running (%s)" % A.pp(e.val, 3), e
            continue
        if not e.users:
            yield False, "no-call", "returns without having run the caller's closure", e
            continue
        av = e.avars()
        a = e.answer()
        if tryc and av and av[0] == "Err":
            yield not eff, "effect-on-error", "changes the cache although the caller's closure failed", e
            yield names[:1] == ["Err"] and has(e.val, a), "error", "does not return the failure of the caller's closure (%s)" % A.pp(e.val, 3), e
            continue
        op = "Put" if upsert else next((v for v in av if v in ("Nop", "Put", "Remove")), None)
        if op is None:
            yield False, "operation", "does not look at which operation the caller chose", e
        elif op == "Nop":
            yield not eff, "nop", "changes the cache although the caller chose Nop", e
            yield result_is(names, ent, "StillNone" if hit is NONE else "Unchanged", hit, 0, 0), "nop-result", "misreports a Nop (%s)" % A.pp(e.val, 4), e
        elif op == "Put":
            ok = len(eff) == 1 and ts[eff[0]][0] == "insert" and base(ts[eff[0]][3]) is a and eff[0] > e.users[-1]
            yield ok, "put", "does not insert the value chosen by the caller exactly once", e
            v = ts[eff[0]][3] if ok else None
            if v is not None:
                want = "?" if upsert else "Inserted" if hit is NONE else "ReplacedWith"
                yield result_is(names, ent, want, v, 1, 0 if hit is NONE else 1), "put-result", "misreports a Put of a key that was %s (%s)" % (
                    "absent" if hit is NONE else "present", A.pp(e.val, 4)), e
        else:
            ok = len(eff) == 1 and ts[eff[0]][0] == "remove" and eff[0] > e.users[-1]
            yield ok, "remove", "does not remove the entry exactly once although the caller chose Remove", e
            if ok:
                x = ts[eff[0]]
                yield x[4] is K(1) or x[4] is UNIT, "remove-value", "does not ask for the removed value", e
                yield result_is(names, ent, "StillNone" if x[3] is NONE else "Removed", x[3], 0, 0), "remove-result", \
                    "misreports a Remove (%s)" % A.pp(e.val, 4), e
    rets = [e for e in ex if e.kind == "ret" and e.users]
    ops = {v for e in rets for v in e.avars()}
    yield bool(rets) and (upsert or {"Nop", "Put", "Remove"} <= ops), "anchor-ops", "not every operation is distinguished (%s)" % sorted(map(str, ops)), None


def result_is(names, ent, want, v, fresh, replaced):
    if names[:1] != ["Ok"] or len(names) < 2 or names[1] != want:
        return False
    if want == "StillNone":
        return True
    if not (isagg(ent) and isinstance(ent.a[0], str) and ent.a[0].endswith("Entry")):
        return False
    x = field(ent, "value")
    k = field(ent, "key")
    return (x is v or base(x) is v) and field(ent, "is_fresh") is K(fresh) and field(ent, "is_old_value_replaced") is K(replaced) \
        and isagg(k) and k.a[1] == "Some"


def c15(P, res, tier):
    roots = [p for p in public_roots(P) if re.search(r"compute|upsert", p)]
    each(P, res, roots, compute)
    res.floor("compute operations", len(roots), 14)


# ------------------------------------------------------------------ C16
def entry_roots(P):
    out = []
    for p, f in P.fns.items():
        if f["kind"] == "fn" and f.get("reach") and f.get("vis") == "Public" and re.search(r"::entry_selector::\w+::<.*>::or_\w+$", p):
            out.append(p)
    return sorted(out)


def metadata(root, ex, r):
    n = 0
    for e in ex:
        if e.kind != "ret":
            continue
        names, ent = entry_parts(e.val)
        if not (isagg(ent) and isinstance(ent.a[0], str) and ent.a[0].endswith("Entry")):
            hit = base(ent)
            if hit.op == "hit":
                # the entry built by the read itself
                n += 1
                yield not e.ev("insert"), "fresh", "returns the entry it read although it inserted a value", e
                nk = hit.a[1]
                yield nk.op != "k" or bool(nk.a[0]), "keyless", "returns an entry that it read without asking for its key: key() panics", e
            else:
                yield names[:1] in (["Err"], ["None"]), "no-entry", "returns something other than an entry (%s)" % A.pp(e.val, 3), e
            continue
        n += 1
        ins = e.ev("insert")
        yield field(ent, "is_fresh") is K(1 if ins else 0), "fresh", "reports is_fresh() = %s on a path that %s" % (
            A.pp(field(ent, "is_fresh")), "stored a newly computed value" if ins else "stored nothing"), e
        yield field(ent, "is_old_value_replaced") is K(0), "replaced", "reports that an old value was replaced by an operation that only fills an absent key", e
        if ins:
            yield field(ent, "value") is ins[-1][3], "value", "the returned entry does not carry the stored value", e
        k = field(ent, "key")
        ks = [x[1] for x in e.ev("insert", "wins", "wfound")]
        ks = [field(x, "0") if isagg(x) else x for x in ks]
        yield isagg(k) and k.a[1] == "Some" and (not ks or k.a[3][0] is ks[-1]), "key", "the returned entry does not carry the key (%s)" % A.pp(k, 3), e
    yield n > 0, "anchor", "no path of the operation returns an entry", None


READS = re.compile(r"base_cache::BaseCache::<.*>::(\w*get\w*with_hash\w*)$")


def c16(P, res, tier):
    roots = entry_roots(P)
    each(P, res, roots, metadata)
    res.floor("entry operations", len(roots), 24)
    # the entries built by the lookups themselves
    import rules_reads as R
    n = 0
    for p in sorted(P.fns):
        f = P.fns[p]
        if not (READS.search(p) and f["kind"] == "fn" and f.get("callers", True)):
            continue
        try:
            vals = lookup_entries(P, p, res)
        except A.EngineError as x:
            res.bad("engine:" + short(p), "analysis failed: %s" % x, p)
            continue
        for ent, trail in vals:
            n += 1
            res.ob(field(ent, "is_fresh") is K(0) and field(ent, "is_old_value_replaced") is K(0), "lookup-flags:" + short(p),
                   "a lookup reports the entry it found as fresh or replaced", p, trail)
    res.floor("entries built by lookups", n, 2)


def lookup_entries(P, p, res):
    import rules_reads as R
    r = LookupRule()
    eng = A.Engine(P, r, lib.BASE_MODELS)
    ex = eng.run(p)
    res.cover(eng)
    out = []
    for e in ex:
        if e.kind == "ret" and isagg(e.val) and e.val.a[1] == "Some":
            v = e.val.a[3][0]
            if isagg(v) and isinstance(v.a[0], str) and v.a[0].endswith("Entry"):
                out.append((v, e.st.trail()))
    return out


class LookupRule(lib.BaseRule):
    stop = ("housekeeper", "invalidator", "apply_reads", "record_read_op", "expire_after", "key_lock", "notifier", "is_expired", "maintenance")
    opaque_yields = False
    max_states = 300
