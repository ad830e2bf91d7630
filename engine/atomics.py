"""Read-modify-write of one atomic cell, as a decision on the cell's current value: for
each path, what is published and under which facts about the value it replaces.  A `load`
followed by `compare_exchange`, a `fetch_update` closure and a plain `store` all reduce to
the same two observations: publish(new, facts about current) and keep(facts)."""
import re
import absint as A
import lib
from absint import N, K, UNIT, SOME, NONE, OK, ERR, isagg, subs
from builtins_ import then, method, _rets

ATOM = re.compile(r"(^|::)Atomic(U8|U16|U32|U64|Usize|Bool|I32|I64)(::<[^>]*>)?::(\w+)$|std::sync::atomic::Atomic(::<\w+>|<\w+>)?::(\w+)$")


class CellRule(lib.BaseRule):
    """ts = (cell term or None, current value term or None, published: None|tuple)"""

    def __init__(self, fld, stop=()):
        self.fld = fld
        self.stop = stop
        self.pub = []       # (State, cur, new, how)

    def inline(self, p):
        return p in self.only if self.only else True

    def init(self):
        return (None, 0)

    def track(self, atom):
        return any(x.op == "cur" for x in subs(atom))

    def model(self, eng, st, ev):
        n = ev.name
        if not ATOM.search(n):
            if n.endswith("::as_nanos") and "Duration" not in n:
                return [(st, N("pure", "as_nanos", (eng.deref_val(st, ev.args[0]),)))]
            return None
        cell = eng.deref_val(st, ev.args[0])
        if not (cell.op == "fld" and cell.a[1] == self.fld):
            return None
        m = method(n)
        cur = N("cur", ev.site)
        ar = [eng.deref_val(st, a) for a in ev.args]
        if m == "load":
            eng.kill_facts(st, cur)
            st.ts = (cur, 0)
            return [(st, cur)]
        if m == "store":
            self.publish(eng, st, None, ar[1], ev)
            st.ts = (st.ts[0], st.ts[1] + 1)
            return [(st, UNIT)]
        if m == "swap":
            eng.kill_facts(st, cur)
            self.publish(eng, st, None, ar[1], ev)
            st.ts = (cur, st.ts[1] + 1)
            return [(st, cur)]
        if m in ("fetch_max", "fetch_min", "fetch_add", "fetch_sub", "fetch_or", "fetch_and"):
            eng.kill_facts(st, cur)
            self.publish(eng, st, cur, N("op", m, cur, ar[1]), ev)
            st.ts = (cur, st.ts[1] + 1)
            return [(st, cur)]
        if m in ("compare_exchange", "compare_exchange_weak"):
            e = st.copy()
            self.publish(eng, st, ar[1], ar[2], ev)
            st.ts = (ar[1], st.ts[1] + 1)
            eng.kill_facts(e, cur)
            e.ts = (cur, e.ts[1])
            return [(st, OK(ar[1])), (e, ERR(cur))]
        if m == "fetch_update":
            eng.kill_facts(st, cur)
            st.ts = (cur, st.ts[1])

            def fin(s, v):
                out = []
                for q, p in eng.opt(s, v):
                    if p is None:
                        out.append((q, ERR(cur)))
                    else:
                        self.publish(eng, q, cur, p, ev)
                        q.ts = (cur, q.ts[1] + 1)
                        out.append((q, OK(cur)))
                return out
            return then(eng.call_value(st, ev.args[3], [cur], ev.fid, ev.blk, ev.ln, "u", ev.fn, eng.P.fns.get(ev.fn)), fin)
        raise A.EngineError("unmodelled atomic operation %s" % n)

    def publish(self, eng, st, cur, new, ev):
        self.pub.append((st.copy(), cur, new, ev))


def analyse(P, root, fld, only=None):
    r = CellRule(fld)
    r.only = only
    eng = A.Engine(P, r, [])
    ex = eng.run(root)
    return r, eng, [e for e in ex if e.kind == "ret"]


def holds_lt(eng, st, a, b):
    """facts imply a < b"""
    return eng.lookup(st, N("le", b, a)) is False


def holds_le(eng, st, a, b):
    return a is b or eng.lookup(st, N("le", a, b)) is True or holds_lt(eng, st, a, b)


def holds_eq(eng, st, a, b):
    return a is b or eng.lookup(st, A.EQ(a, b)) is True
