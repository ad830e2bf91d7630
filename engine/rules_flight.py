"""Single-flight rule: for every path of the get_with and compute families the ordered list
of what it does with the waiter registry, the waiter's lock and value, the cache, and the
caller's closure or future.  The reads and writes of the cache itself are the subject of
other checks and are events here."""
import re
import absint as A
import lib
from absint import N, K, NONE, SOME, UNIT, isagg, field, subs, EQ, READY, PENDING
from lib import BaseRule
from rules_reads import main_map_fields, is_main
from builtins_ import method, then, _rets

RD = re.compile(r"base_cache::BaseCache::<.*>::(\w*get\w*with_hash\w*)$")
INS = re.compile(r"::cache::Cache::<.*>::(insert_with_hash)$")
REM = re.compile(r"::cache::Cache::<.*>::(invalidate_with_hash)$")
RWL = re.compile(r"RwLock::<.*>::(new|write|read|try_write|try_read|upgradable_read|write_arc|read_arc)$|Mutex::<.*>::(new|lock)$")
GUARD = re.compile(r"(Guard|Deref)")


class FlightRule(BaseRule):
    stop = ("base_cache::", "housekeeper", "invalidator", "crossbeam", "key_lock", "notifier")
    cht_retries = False
    max_states = 3000
    opaque_yields = False

    def __init__(self, cancel=True, panics=True):
        self.cancel = cancel
        self.panics = panics
        self.seen = {}
        self.down = set()

    def unwinds(self, eng, ev):
        if not self.panics:
            return False
        if ev.kind == "user":
            return True
        # the cache operations run the caller's weigher, Expiry, Hash and Eq
        if ev.kind == "call" and (INS.search(ev.name or "") or REM.search(ev.name or "") or RD.search(ev.name or "")) \
                and not (eng.P.fns.get(ev.name) or {}).get("async"):
            return True
        if ev.kind == "poll" and isinstance(ev.args[0], A.Node) and ev.args[0].op == "cachefut":
            return True
        return ev.kind == "poll" and ev.name == "<leaf>" and self.is_user(ev.args[0])

    def is_user(self, c):
        return c.op == "call" and c.a[0] == "<user>" or c.op == "arg" or c.op == "fld" and c.a[0].op in ("arg", "fld")

    def add(self, st, *e):
        if st.ts and st.ts[-1] == e:
            return
        self.seen[e[0]] = self.seen.get(e[0], 0) + 1
        if len(st.ts) > 40:
            raise A.EngineError("effect list too long: %s" % [x[0] for x in st.ts])
        st.ts = st.ts + (e,)

    def waiters(self, eng, st, v):
        m = eng.deref_val(st, v)
        return any(x.op == "fld" and x.a[1] == "waiters" for x in subs(m))

    def model(self, eng, st, ev):
        n = ev.name
        if ev.kind == "user":
            a = [eng.deref_val(st, x) for x in ev.args[1:]]
            f = eng.deref_val(st, ev.args[0])
            v = N("call", "<user>", (f,) + tuple(a), ev.site)
            eng.kill_facts(st, v)
            self.add(st, "user", f, v, tuple(a))
            return [(st, v)]
        if ev.kind == "poll":
            c = eng.deref_val(st, ev.args[0])
            if c.op == "wfut":
                return [(st.copy(), PENDING), (st, READY(self.locked(eng, st, c)))]
            if c.op == "rfut":
                return [(st.copy(), PENDING), (st, READY(self.waited(eng, st, c)))]
            if c.op == "cachefut":
                p = st.copy()
                return [(p, PENDING)] + [(s, READY(v)) for s, v in self.cacheop(eng, st, c.a[0], c.a[1], c.a[2], c.a[3])]
            if ev.name == "<leaf>" and self.is_user(c):
                v = N("await", c)
                eng.kill_facts(st, v)
                p = st.copy()
                self.add(st, "user", c, v, ())
                return [(p, PENDING), (st, READY(v))]
            return None
        if n.endswith("::downcast") and ev.ga:
            self.down.add(ev.ga[-1])
            return [(st, A.OK(eng.deref_val(st, ev.args[0])))]
        if n.endswith("TypeId::of"):
            return [(st, N("typeid", ev.ga[0] if ev.ga else "?"))]
        m = RWL.search(n)
        if m and "key_lock" not in (ev.fn or ""):
            m = method(n)
            if m == "new":
                c = N("rwl", ev.site)
                st.heap[c] = eng.deref_val(st, ev.args[0])
                return [(st, c)]
            c = eng.deref_val(st, ev.args[0])
            if c.op == "rwl" or any(x.op in ("chtval", "chtold") for x in subs(c)):
                if m in ("write", "write_arc", "lock", "upgradable_read"):
                    f = N("wfut", c)
                    if n.startswith("async_lock"):
                        return [(st, f)]
                    return [(st, self.locked(eng, st, f))]
                if m in ("read", "read_arc"):
                    f = N("rfut", c)
                    if n.startswith("async_lock"):
                        return [(st, f)]
                    return [(st, self.waited(eng, st, f))]
        if method(n) in ("deref", "deref_mut", "as_ref") and ev.args:
            g = eng.deref_val(st, ev.args[0])
            if g.op == "wguard":
                return [(st, g.a[0])]
            if g.op == "rguard":
                return [(st, N("content", g.a[0]))]
        mm = RD.search(n)
        if mm:
            return self.cachecall(eng, st, ev, "read")
        if INS.search(n):
            return self.cachecall(eng, st, ev, "insert")
        if REM.search(n):
            return self.cachecall(eng, st, ev, "remove")
        if n.startswith("cht::segment::HashMap::<") and ev.kind == "call" and self.waiters(eng, st, ev.args[0]):
            a = [eng.deref_val(st, x) for x in ev.args]
            k = method(n)
            if k == "insert_if_not_present":
                o = st.copy()
                self.add(st, "wins", a[1], a[2], a[3])
                ex = N("chtval", ev.site)
                eng.kill_facts(o, ex)
                o.ts = tuple(e for e in o.ts if e[0] not in ("wfound", "wait"))
                self.add(o, "wfound", a[1], ex)
                return [(st, NONE), (o, SOME(ex))]
            if k in ("remove", "remove_if", "remove_entry", "remove_entry_if_and"):
                key = N("chtkey", ev.site)
                exact = None
                for e in _rets(eng.call_value(st.copy(), ev.args[2], [key], ev.fid, ev.blk, ev.ln, "wk", ev.fn, eng.P.fns.get(ev.fn))):
                    if e.kind == "ret" and e.val.op == "eq" and key in e.val.a:
                        exact = [x for x in e.val.a if x is not key][0]
                self.add(st, "wrem", exact, a[1])
                return [(st, N("call", n, tuple(a), ev.site))]
            if k in ("hash",):
                return [(st, N("whash", a[1]))]
            if k in ("insert_with_or_modify", "insert_entry_and", "insert"):
                self.add(st, "wins", a[1], a[2], a[3] if len(a) > 3 else UNIT)
                return [(st, NONE)]
        return None

    def locked(self, eng, st, f):
        if not any(e[0] == "wins" for e in st.ts):
            st.ts = tuple(e for e in st.ts if not (e[0] in ("wlock", "wrel") and e[1] is f.a[0]))
        self.add(st, "wlock", f.a[0])
        return N("wguard", f.a[0])

    def waited(self, eng, st, f):
        c = N("content", f.a[0])
        eng.kill_facts(st, c)
        self.add(st, "wait", f.a[0])
        return N("rguard", f.a[0])

    def cachecall(self, eng, st, ev, kind):
        a = tuple(eng.deref_val(st, x) for x in ev.args[1:])
        f = eng.P.fns.get(ev.name)
        nk = UNIT
        if f and kind == "read":
            names = eng.arg_names(f)
            if "need_key" in names and names.index("need_key") < len(ev.args):
                nk = eng.deref_val(st, ev.args[names.index("need_key")])
        if f and f.get("async"):
            return [(st, N("cachefut", kind, a, ev.site, nk))]
        return self.cacheop(eng, st, kind, a, ev.site, nk)

    def cacheop(self, eng, st, kind, a, site, nk=UNIT):
        if kind == "read":
            hit = N("hit", site, nk)
            eng.kill_facts(st, hit)
            o = st.copy()
            self.add(st, "read", a[0], a[1], hit)
            self.add(o, "read", a[0], a[1], NONE)
            return [(st, SOME(hit)), (o, NONE)]
        if kind == "insert":
            self.add(st, "insert", a[0], a[1], a[2])
            return [(st, UNIT)]
        prev = N("prev", site)
        eng.kill_facts(st, prev)
        o = st.copy()
        self.add(st, "remove", a[0], a[1], prev, a[2] if len(a) > 2 else UNIT)
        self.add(o, "remove", a[0], a[1], NONE, a[2] if len(a) > 2 else UNIT)
        return [(st, SOME(prev)), (o, NONE)]

    def on(self, eng, st, ev):
        if ev.kind == "drop":
            g = ev.args[0]
            if g.op == "wguard":
                self.add(st, "wrel", g.a[0], st.heap.get(g.a[0], g.a[0]))
            elif g.op == "rguard":
                self.add(st, "rrel", g.a[0])
                st.ts = tuple(e for e in st.ts if e[0] != "rrel")
        elif ev.kind == "cancel":
            self.add(st, "cancel")
        elif ev.kind == "caught":
            self.add(st, "caught")
        elif ev.kind == "panic":
            # a panic on a waiting path: which value was found?
            w = [e for e in st.ts if e[0] == "wait"]
            c = N("content", w[-1][1]) if w else None
            self.panicked = getattr(self, "panicked", [])
            if c is not None and not any(e[0] == "wins" for e in st.ts):
                self.panicked.append((ev.fn, st.facts.get(N("var", c)), ev.name))
        return None

    def track(self, atom):
        if atom.op == "var" and any(x.op == "content" for x in subs(atom)):
            return True
        if atom.op == "var":
            # the caller's answer: variant of what the closure or future returned
            x = atom.a[0]
            while x.op in ("fld", "as"):
                x = x.a[0]
            if x.op == "await" or x.op == "call" and x.a[0] == "<user>":
                return True
        return False


def show(ts):
    return ["%s(%s)" % (e[0], ", ".join(A.pp(x, 2) if isinstance(x, A.Node) else str(x)[:60] for x in e[1:])) for e in ts]


def roots(P):
    rx = re.compile(r"::value_initializer::ValueInitializer::<.*>::(try_\w+)$")
    tgt = {p for p in P.fns if rx.search(p) and P.fns[p]["kind"] == "fn" and ("init_or_read" in p or "compute" in p)}
    out = []
    for p, f in P.fns.items():
        if f["kind"] == "fn" and f.get("reach") and f.get("vis") == "Public" and re.match(r"(sync|future)::", p) and "value_initializer" not in p:
            out.append(p)
    return tgt, out


if __name__ == "__main__":
    import sys, prog, time
    P = prog.Program()
    for root in sys.argv[1:]:
        for q in [p for p in P.fns if re.search(root, p) and P.fns[p]["kind"] == "fn"]:
            t = time.time()
            r = FlightRule(cancel="future" in q)
            eng = A.Engine(P, r, lib.BASE_MODELS)
            try:
                ex = eng.run(q)
            except A.EngineError as e:
                print(q, "ERR", e)
                continue
            print(q, len(ex), "exits", eng.steps, "steps %.1f" % (time.time() - t), set(getattr(r, "panicked", [])))
            for e in ex:
                print("  ", e.kind, A.pp(e.val, 2) if e.val is not None else "", {A.pp(a): v for a, v in e.st.facts.items() if r.track(a)})
                for x in show(e.st.ts):
                    print("      ", x[:200])
