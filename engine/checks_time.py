"""C21: time stamps, versions and deadlines are stored, compared and handed out exactly.

Each operation is summarised by its paths (all calls followed, atomic cells as symbols). A summary is a
decision table: conditions on, and results as functions of, the cells' contents and the arguments. It is
evaluated, as a function, over all values of the narrow quantities (16-bit versions, 12-bit generations)
and over the basis vectors, powers of two, their neighbours and the limits of the 64-bit ones.
"""
import re
import absint as A
import lib
import checks_queue as CQ
from absint import N, K, UNIT, SOME, NONE, OK, ERR, isagg, field, subs
from atomics import ATOM
from builtins_ import then
from checks_reads import short
from checks_sketch import uncast
from moka_models import method

EI = "common::concurrent::entry_info::EntryInfo::<K>::"
AI = "common::time::atomic_time::AtomicInstant::"
IN = "common::time::instant::Instant::"
CL = "common::time::clock::Clock::"
U64 = (1 << 64) - 1


class CellsRule(lib.BaseRule):
    """atomic cells are symbols; ts = what was published, in order"""
    indexed = True
    unroll = True
    narrow = True

    def __init__(self):
        self.torn = set()

    def inline(self, p):
        return True

    def track(self, a):
        return True

    def model(self, eng, st, ev):
        n = ev.name
        if not ATOM.search(n) or method(n) in ("new", "default", "into_inner", "get_mut", "from"):
            return None
        m = method(n)
        ar = [eng.deref_val(st, a) for a in ev.args]
        cell = N("cell", ar[0])

        def pub(s, v):
            if m in ("store", "swap") and (cell in subs(v) or any(cell in subs(a) for a in s.facts)):
                self.torn.add((A.pp(cell, -3), ev.loc(eng)))     # decided on a value that may have been replaced since
            s.ts = s.ts + (("pub", cell, v),)
            return s

        if m == "load":
            return [(st, cell)]
        if m == "store":
            return [(pub(st, ar[1]), UNIT)]
        if m == "swap":
            return [(pub(st, ar[1]), cell)]
        if m.startswith("fetch_") and m != "fetch_update":
            return [(pub(st, N("rmw", m, cell, ar[1])), cell)]
        if m in ("compare_exchange", "compare_exchange_weak"):
            e = st.copy()
            if ar[1] is not cell:
                st.ts = st.ts + (("expect", cell, ar[1]),)
            eng.kill_facts(e, cell)
            return [(pub(st, ar[2]), OK(cell)), (e, ERR(cell))]
        if m in ("fetch_update", "try_update", "update"):
            eng.kill_facts(st, cell)

            def fin(s, v):
                out = []
                for q, p in eng.opt(s, v):
                    out.append((q, ERR(cell)) if p is None else (pub(q, p), OK(cell)))
                return out
            return then(eng.call_value(st, ev.args[3], [cell], ev.fid, ev.blk, ev.ln, "u", ev.fn, eng.P.fns.get(ev.fn)), fin)
        raise A.EngineError("unmodelled atomic operation %s" % n)


class Unk(Exception):
    pass


def width(name, dflt=64):
    m = re.search(r"impl (u8|u16|u32|u64|u128|usize)>", name)
    return {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64}[m.group(1)] if m else dflt


NANOS = {"as_nanos": 1, "as_micros": 10 ** 3, "as_millis": 10 ** 6, "as_secs": 10 ** 9}


def ev(t, env):
    """the value of a term: numbers, ("Some", x), None, tuples; Durations as nanoseconds"""
    if t in env:
        return env[t]
    if t.op == "k":
        return t.a[0]
    if t is UNIT:
        return ()
    if t.op == "cast":
        w = A.WIDTHS[t.a[1]]
        x = ev(t.a[0], env)
        if isinstance(x, bool) or not isinstance(x, int):
            return x
        x &= (1 << w) - 1
        return x - (1 << w) if t.a[1][0] == "i" and x >> w - 1 else x
    if t.op == "cell" and env.get("cell"):
        return env["cell"](t)
    if isagg(t):
        vs = tuple(ev(x, env) for x in t.a[3])
        if t.a[1]:
            return (t.a[1],) + vs
        return vs[0] if len(vs) == 1 and t.a[0] != "tuple" else vs
    if t.op in ("fld", "as"):
        b = t.a[0]
        if t.op == "fld" and b.op == "as" and b.a[0].op in ("pure", "call"):
            m = method(b.a[0].a[0])
            if m == "try_from" or m == "try_into":
                return ev(b.a[0].a[1][0], env)
            if m.startswith("checked_"):
                return arith(m[8:], [ev(x, env) for x in b.a[0].a[1]])
    if t.op == "op":
        xs = [ev(x, env) for x in t.a[1:]]
        if any(not isinstance(x, int) for x in xs):
            raise Unk(A.pp(t, -3))
        if t.a[0] == "Not" and len(xs) == 1:
            return xs[0] ^ U64
        r = arith({"Add": "add", "Sub": "sub", "Mul": "mul", "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "Shl": "shl", "Shr": "shr", "Div": "div", "Rem": "rem"}.get(t.a[0]), xs)
        if t.a[0] == "Shl":
            r &= U64
        if not 0 <= r < 1 << 128:
            raise Unk("overflow in " + A.pp(t, -3))
        return r
    if t.op in ("eq", "le", "lt"):
        x, y = (ev(z, env) for z in t.a)
        if t.op != "eq" and (not isinstance(x, int) or not isinstance(y, int)):
            raise Unk(A.pp(t, -3))
        return {"eq": lambda: x == y, "le": lambda: x <= y, "lt": lambda: x < y}[t.op]()
    if t.op in ("min", "max"):
        return (min if t.op == "min" else max)(ev(x, env) for x in t.a)
    if t.op == "not":
        return not ev(t.a[0], env)
    if t.op == "rmw":
        m, x, y = t.a[0], ev(t.a[1], env), ev(t.a[2], env)
        if m in ("fetch_max", "fetch_min"):
            return (max if m == "fetch_max" else min)(x, y)
        w = env.get("width")
        r = arith(m[6:], [x, y])
        return r & ((1 << w(t.a[1])) - 1) if w else r
    if t.op in ("pure", "call"):
        m = method(t.a[0])
        xs = [ev(x, env) for x in t.a[1]]
        w = width(t.a[0])
        M = (1 << w) - 1
        num = all(isinstance(x, int) for x in xs)
        if num and len(xs) == 2:
            if m.startswith("wrapping_"):
                return arith(m[9:], xs) & M
            if m == "abs_diff":
                return abs(xs[0] - xs[1])
            if m.startswith("saturating_"):
                return max(0, min(M, arith(m[11:], xs)))
            if m in ("saturating_duration_since", "saturating_sub"):
                return max(0, xs[0] - xs[1])
            if m.startswith("checked_"):
                r = arith(m[8:], xs)
                return ("Some", r) if 0 <= r <= M else ("None",)
            if m in ("add", "sub", "min", "max"):
                return {"min": min, "max": max}[m](*xs) if m[0] == "m" else arith(m, xs)
        if num and len(xs) == 1:
            if m in ("from_nanos", "into", "from", "clone", "deref", "as_u64"):
                return xs[0]
            if m in NANOS:
                return xs[0] // NANOS[m]
            if m == "subsec_nanos":
                return xs[0] % 10 ** 9
            if m == "from_secs":
                return xs[0] * 10 ** 9
            if m == "is_power_of_two":
                return bin(xs[0]).count("1") == 1
            if m in ("try_from", "try_into"):
                return ("Ok", xs[0]) if xs[0] <= U64 else ("Err", ())
        if num and len(xs) == 2 and m == "new" and "Duration" in t.a[0]:
            return xs[0] * 10 ** 9 + xs[1]
    raise Unk(A.pp(t, -3))


def arith(o, xs):
    x, y = xs
    if o in ("div", "rem") and y == 0:
        raise Unk("division by zero")
    f = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y,
         "shl": lambda: x << y, "shr": lambda: x >> y, "div": lambda: x // y, "rem": lambda: x % y}.get(o)
    if f is None:
        raise Unk(str(o))
    return f()


def true(a, v, env):
    if a.op == "var":
        x = env[a.a[0]] if a.a[0] in env else ev(a.a[0], env)
        return isinstance(x, tuple) and x[:1] == (v,)
    return ev(a, env) == bool(v)


class Table:
    """the decision table of an operation"""

    def __init__(self, P, res, path, w=None):
        self.res, self.w = res, short(path)
        self.rule = CellsRule()
        eng = A.Engine(P, self.rule, [])
        self.ex = [e for e in eng.run(path) if e.kind == "ret"]
        res.cover(eng)
        for c, loc in sorted(self.rule.torn):
            res.ob(False, "atomic", "%s is overwritten by what was decided on an earlier value of it, not in one step" % c, loc)
        self.args = {x.a[0] for e in self.ex for t in self.terms(e) for x in subs(t) if x.op == "arg"}

    def terms(self, e):
        return [e.val] + list(e.st.facts) + [x[2] for x in e.st.ts] + [x[1] for x in e.st.ts] + list(e.st.heap.values())

    def all(self):
        return {x for e in self.ex for t in self.terms(e) for x in subs(t)}

    def cells(self):
        return {x for x in self.all() if x.op == "cell"}

    def at(self, env):
        """the outcomes the operation can have under a valuation: {(value, published)}"""
        out = set()
        for e in self.ex:
            # the cheap and decisive conditions first
            if all(true(a, v, env) for a, v in e.st.facts.items()):
                for x in e.st.ts:
                    if x[0] == "expect" and ev(x[2], env) != ev(x[1], env):
                        break
                else:
                    out.add((ev(e.val, env), tuple((x[1], ev(x[2], env)) for x in e.st.ts if x[0] == "pub")))
        return out

    def only(self, name, env, say):
        """the one outcome"""
        try:
            o = self.at(env)
        except Unk as x:
            self.res.ob(False, name + ":eval", "%s: depends on %s" % (say, x), self.w)
            return None
        self.res.ob(len(o) == 1, name + ":case", "%s: %s" % (say, "no path" if not o else "several outcomes: %s" % list(o)[:2]), self.w)
        return next(iter(o)) if len(o) == 1 else None


def points():
    """basis vectors, powers of two and their neighbours, limits"""
    s = {0, U64, U64 - 1, U64 - 2, 0xFFF, 0x1000, 0x1001, U64 & ~0xFFF, (U64 & ~0xFFF) - 1, (U64 & ~0x1FFF) - 1, U64 & ~0x1FFF, 123456789012345678}
    for k in range(64):
        s |= {1 << k, (1 << k) - 1, (1 << k) + 1, U64 ^ (1 << k)}
    return sorted(x for x in s if 0 <= x <= U64)


def inner(P, res):
    """the name of the field an Instant keeps its nanoseconds in"""
    p = IN + "as_nanos"
    if not CQ.there(P, res, p, 1):
        return None
    t = Table(P, res, p)
    v = t.ex[0].val if len(t.ex) == 1 else None
    ok = v is not None and v.op == "fld" and v.a[0].op == "arg"
    res.ob(ok, "instant:nanos", "as_nanos does not return what the Instant holds", t.w)
    return v.a[1] if ok else None


def cell_named(P, res, f, n=1):
    """the cell an accessor reads"""
    if not CQ.there(P, res, f, n):
        return None
    t = Table(P, res, f)
    c = t.cells()
    return next(iter(c)).a[0] if len(c) == 1 else None


def versions(P, res):
    """entry versions: what counts as new, dirty"""
    sp, idt, inc, eg = EI + "set_policy_gen", EI + "is_dirty", EI + "incr_entry_gen", EI + "entry_gen"
    if not all(CQ.there(P, res, f, n) for f, n in ((sp, 2), (idt, 1), (inc, 1), (eg, 1))):
        return
    w16 = {"width": lambda c: 16}
    ent = cell_named(P, res, eg)
    t = Table(P, res, sp)
    v = [x for x in t.all() if x.op == "arg" and x.a[0] != "self"]
    pol = {x for x in t.cells()}
    if not (len(v) == 1 and len(pol) == 1):
        res.ob(False, "policy_gen:shape", "set_policy_gen does not compare its argument with one cell", t.w)
        return
    v, pol = v[0], pol.pop()
    for cur in (0, 1, 0x7FFF, 0x8000, 0x8001, 0xFFFF, 12345):
        step = 1 if cur in (0xFFFF, 12345) else 13
        for d in sorted(set(range(0, 65536, step)) | {0, 1, 2, 32766, 32767, 32768, 32769, 65534, 65535}):
            new = (cur + d) & 0xFFFF
            say = "a policy generation of %d, set to %d" % (cur, new)
            o = t.only("policy_gen", dict(w16, **{}) | {pol: cur, v: new}, say)
            if o is None:
                return
            after = o[1][-1][1] if o[1] else cur
            # ahead by up to half of the range is later; exactly half is ambiguous
            want = {new} if d <= 32767 else {cur, new} if d == 32768 else {cur}
            res.ob(after in want, "policy_gen:later", "%s, becomes %d" % (say, after), t.w)
    t = Table(P, res, idt)
    for a, b in ((0, 0), (1, 0), (0, 1), (65535, 0), (7, 7), (65535, 65535), (256, 0), (0x8000, 0)):
        if ent is None or not all(c.a[0] is ent or c.a[0] is pol.a[0] for c in t.cells()):
            res.ob(False, "dirty:cells", "is_dirty does not compare the two generations", t.w)
            break
        o = t.only("dirty", {N("cell", ent): a, pol: b}, "is_dirty")
        if o:
            res.ob(bool(o[0]) == (a != b), "dirty:when", "an entry of version %d whose version %d was applied is %sdirty" % (a, b, "" if o[0] else "not "), t.w)
    t = Table(P, res, inc)
    for a in (0, 1, 255, 256, 32767, 32768, 65534, 65535):
        o = t.only("entry_gen", dict(w16) | {N("cell", ent): a}, "incr_entry_gen")
        if o:
            n = (a + 1) & 0xFFFF
            res.ob([x[1] for x in o[1]] == [n] and o[1][0][0].a[0] is ent, "entry_gen:next", "version %d is followed by %s" % (a, [x[1] for x in o[1]]), t.w)
            res.ob(o[0] == n, "entry_gen:told", "the version after %d is reported as %s" % (a, o[0]), t.w)
    if CQ.there(P, res, EI + "new", 3):
        t = Table(P, res, EI + "new")
        res.ob(len(t.ex) >= 1, "new:paths", "EntryInfo::new does not return", t.w)
        for e in t.ex:
            vals = {}
            for nm, x in zip(e.val.a[2], e.val.a[3]) if isagg(e.val) else ():
                while isagg(x) and len(x.a[3]) == 1 and not x.a[1]:
                    x = x.a[3][0]
                if x.op in ("pure", "call") and method(x.a[0]) == "new" and "tomic" in x.a[0]:
                    vals[nm] = x.a[1][0]
                elif x.op in ("pure", "call") and method(x.a[0]) == "default" or A.pp(x) == "default()":
                    vals[nm] = K(0)
            eg_, pg_ = vals.get(ent.a[1]) if ent is not None and ent.op == "fld" else None, vals.get(pol.a[0].a[1])
            res.ob(eg_ is not None and pg_ is not None and eg_ is not pg_ and all(x.op == "k" for x in (eg_, pg_)) and 0 < (eg_.a[0] - pg_.a[0]) & 0xFFFF <= 32767,
                   "new:gen", "a new entry's version is not ahead of the applied one", t.w)
            for f in ("last_accessed", "last_modified"):
                c = [x for x in P.fns if x == "<common::concurrent::entry_info::EntryInfo<K> as common::concurrent::AccessTime>::" + f]
                cell = cell_named(P, res, c[0]) if c else None
                if cell is not None:
                    nm = cell.a[0].a[1] if cell.a[0].op == "fld" else cell.a[1]
                    x = vals.get(nm)
                    res.ob(x is not None and any(y.op == "arg" and y.a[0] not in ("key_hash", "policy_weight") for y in subs(x)), "new:" + f, "a new entry's %s is %s" % (f, A.pp(x) if x is not None else "missing"), t.w)
            cell = cell_named(P, res, EI + "policy_weight")
            if cell is not None and cell.op == "fld":
                x = vals.get(cell.a[1])
                res.ob(x is not None and x.op == "arg", "new:weight", "a new entry's weight is %s" % (A.pp(x) if x is not None else "missing"), t.w)


def deadlines(P, res, ns):
    """the packed expiration time and generation"""
    st, sg = EI + "set_expiration_time", EI + "expiration_state"
    if not (CQ.there(P, res, st, 2) and CQ.there(P, res, sg, 1)):
        return
    ts, tg = Table(P, res, st), Table(P, res, sg)
    cs = ts.cells()
    if not (len(cs) == 1 and tg.cells() == cs):
        res.ob(False, "deadline:cell", "the expiration state is not kept in, and read from, one cell in one step", ts.w)
        return
    c = cs.pop()
    # new entries have no deadline
    if CQ.there(P, res, EI + "new", 3):
        for e in Table(P, res, EI + "new").ex:
            x = field(e.val, c.a[0].a[1]) if isagg(e.val) else None
            x = x.a[1][0] if x is not None and x.op in ("pure", "call") and x.a[1] else None
            try:
                o = tg.only("deadline:new", {c: ev(x, {})}, "a new entry") if x is not None else None
                res.ob(o is not None and o[0][0] == ("None",), "deadline:fresh", "a new entry has the deadline %s" % (o[0][0],) if o else "a new entry's deadline is unknown", short(EI + "new"))
            except Unk as z:
                res.ob(False, "deadline:fresh", "a new entry's deadline is %s" % z, short(EI + "new"))
    targ = [x for x in ts.all() if x.op == "arg" and x.a[0] != "self"]
    if len(targ) != 1:
        res.ob(False, "deadline:arg", "set_expiration_time does not use its argument", ts.w)
        return
    targ = targ[0]
    tv = {x for x in ts.all() if x.op == "fld" and x.a[1] == ns and targ in subs(x)} | {x for x in ts.all() if x.op == "fld" and x.a[0].op == "as" and x.a[0].a[0] is targ}

    def setto(cur, t):
        env = {c: cur, targ: ("None",) if t is None else ("Some", t)}
        for x in tv:
            env[x] = 0 if t is None else t
        return ts.only("deadline", env, "a deadline of %s over the state %#x" % (t, cur))

    olds = [0, 5 << 12, (U64 & ~0xFFF) - 0x1000]
    for g in list(range(4096)):
        for base in olds[:1] if g not in (0, 1, 4094, 4095) else olds + [U64 & ~0xFFF]:
            for t in (None, 1 << 40):
                o = setto(base | g, t)
                if o is None:
                    return
                n = (g + 1) & 0xFFF
                res.ob(o[0] == n, "deadline:gen", "generation %d is followed by %s" % (g, o[0]), ts.w)
                if len(o[1]) != 1:
                    res.ob(False, "deadline:set", "setting a deadline stores %d states" % len(o[1]), ts.w)
                    return
                r = tg.only("deadline:get", {c: o[1][0][1]}, "reading the state %#x" % o[1][0][1])
                if r is None:
                    return
                res.ob(r[0][1] == n, "deadline:told", "the generation %d is read back as %s" % (n, r[0][1]), tg.w)
                res.ob((r[0][0] == ("None",)) == (t is None), "deadline:none", "%s is read back as %s" % ("no deadline" if t is None else "a deadline", r[0][0]), tg.w)
    for t in points():
        if t == U64:
            continue            # no Instant holds it
        for cur in (0, 0xFFF, (7 << 30) | 0xABC, U64 & ~0xFFF, U64):
            o = setto(cur, t)
            if o is None or len(o[1]) != 1:
                return
            r = tg.only("deadline:get", {c: o[1][0][1]}, "reading the state %#x" % o[1][0][1])
            if r is None:
                return
            n = ((cur & 0xFFF) + 1) & 0xFFF
            d = r[0][0]
            # at most one unit early, never late; the largest ones are clamped
            ok = d[0] == "Some" and isinstance(d[1], int) and d[1] <= t and t - d[1] < (4096 if t < U64 & ~0xFFF else 8192)
            res.ob(ok, "deadline:exact", "a deadline of %d ns is read back as %s" % (t, d[1:] or "none"), ts.w)
            res.ob(r[0][1] == n == o[0], "deadline:gen", "a deadline of %d ns disturbs the generation (%s, not %d)" % (t, r[0][1], n), ts.w)


def stamps(P, res, ns):
    """AtomicInstant: unset or set, only forwards"""
    si, ins, iss, new = (AI + x for x in ("set_instant", "instant", "is_set", "new"))
    if not all(CQ.there(P, res, f, n) for f, n in ((si, 2), (ins, 1), (iss, 1), (new, 1))):
        return
    t, ti, tb = Table(P, res, si), Table(P, res, ins), Table(P, res, iss)
    c = {x for x in ti.cells()}
    if len(c) != 1 or tb.cells() != c or {x[1] for e in t.ex for x in e.st.ts} - c:
        res.ob(False, "stamp:cell", "AtomicInstant does not keep its time in one cell", t.w)
        return
    c = c.pop()
    av = [x for x in t.all() if x.op == "fld" and x.a[1] == ns]
    # which content means unset
    dflt = "<common::time::atomic_time::AtomicInstant as std::default::Default>::default"
    unset = U64
    if dflt in P.fns:
        for e in Table(P, res, dflt).ex:
            xs = [x.a[1][0] for x in subs(e.val) if x.op in ("pure", "call") and method(x.a[0]) == "new"]
            o = ti.only("stamp:unset", {c: ev(xs[0], {})}, "a default AtomicInstant") if len(xs) == 1 and xs[0].op == "k" else None
            if o:
                unset = ev(xs[0], {})
            res.ob(o is not None and o[0] == ("None",), "stamp:default", "a default AtomicInstant is set", short(dflt))
    for x in points():
        o, b = ti.only("stamp", {c: x}, "reading the time stamp %d" % x), tb.only("stamp", {c: x}, "is_set of %d" % x)
        if o is None or b is None:
            return
        res.ob(o[0] == (("None",) if x == unset else ("Some", x)), "stamp:read", "the time stamp %d is read as %s" % (x, o[0]), ti.w)
        res.ob(bool(b[0]) == (x != unset), "stamp:isset", "the time stamp %d is %sset" % (x, "" if b[0] else "not "), tb.w)
    ps = [0, 1, 2, 1000, (1 << 32) - 1, 1 << 32, (1 << 52) + 1, 1 << 63, U64 - 1]
    for cur in ps + [unset]:
        for x in ps:
            o = t.only("stamp:set", {c: cur} | {y: x for y in av}, "setting %d over %d" % (x, cur))
            if o is None:
                return
            after = o[1][-1][1] if o[1] else cur
            want = x if cur == unset else max(cur, x)
            res.ob(after == want, "stamp:forward", "the time stamp %s, set to %d, becomes %s" % ("unset" if cur == unset else cur, x, after), t.w)
    tn = Table(P, res, new)
    for e in tn.ex:
        xs = [x.a[1][0] for x in subs(e.val) if x.op in ("pure", "call") and method(x.a[0]) == "new" and "tomic" in x.a[0]]
        res.ob(len(xs) == 1 and xs[0].op == "fld" and xs[0].a[1] == ns, "stamp:new", "a new AtomicInstant holds %s" % (A.pp(xs[0]) if xs else "nothing"), tn.w)


def instants(P, res, ns):
    """saturating arithmetic of Instants; the clock and its inverse"""
    top = U64 - 1
    durs = [0, 1, 999, 10 ** 9, 10 ** 9 + 1, (1 << 32) - 1, 1 << 32, (1 << 63) + 5, U64 - 2, U64 - 1, U64, U64 + 1, U64 + 2, 1 << 65, (U64 * 10 ** 9) + 999999999]
    f = IN + "duration_to_saturating_nanoseconds"
    g = IN + "from_duration_since_clock_start"
    for p in (f, g):
        if not CQ.there(P, res, p, 1):
            continue
        t = Table(P, res, p)
        ar = [x for x in t.all() if x.op == "arg"]
        for d in durs:
            o = t.only("duration", {x: d for x in ar}, "a duration of %d ns" % d)
            if o is None:
                break
            res.ob(o[0] == min(d, top), "duration:nanos", "a duration of %d ns is converted to %s" % (d, o[0]), t.w)
    p = IN + "saturating_add"
    if CQ.there(P, res, p, 2):
        t = Table(P, res, p)
        ss = [x for x in t.all() if x.op == "fld" and x.a[1] == ns and x.a[0].op == "arg" and x.a[0].a[0] == "self"]
        ds = [x for x in t.all() if x.op == "arg" and x.a[0] != "self"]
        res.ob(len(ss) == 1 and len(ds) == 1, "instant:add:args", "saturating_add does not add its two arguments", t.w)
        for a in (0, 1, 10 ** 9, 1 << 63, top - 1, top):
            for d in durs:
                o = t.only("instant:add", {x: a for x in ss} | {x: d for x in ds}, "%d ns later than %d" % (d, a))
                if o is None:
                    return
                res.ob(o[0] == min(a + d, top), "instant:sum", "%d ns after %d is %s" % (d, a, o[0]), t.w)
    p = IN + "saturating_duration_since"
    if CQ.there(P, res, p, 2):
        t = Table(P, res, p)
        ss = [x for x in t.all() if x.op == "fld" and x.a[1] == ns and x.a[0].op == "arg"]
        me = [x for x in ss if x.a[0].a[0] == "self"]
        ot = [x for x in ss if x.a[0].a[0] != "self"]
        for a in (0, 1, 10 ** 9, 1 << 63, top):
            for b in (0, 1, 10 ** 9 + 1, 1 << 62, top):
                o = t.only("instant:since", {x: a for x in me} | {x: b for x in ot}, "the duration from %d to %d" % (b, a))
                if o is None:
                    return
                res.ob(o[0] == max(0, a - b), "instant:difference", "from %d to %d it takes %s ns" % (b, a, o[0]), t.w)
    for nm, p in (("cmp", "<common::time::instant::Instant as std::cmp::Ord>::cmp"), ("partial_cmp", "<common::time::instant::Instant as std::cmp::PartialOrd>::partial_cmp"), ("eq", "<common::time::instant::Instant as std::cmp::PartialEq>::eq")):
        if not CQ.there(P, res, p, 2):
            continue
        t = Table(P, res, p)
        for e in t.ex:
            v = e.val
            v = v.a[3][0] if isagg(v, A.OPT) and v.a[3] else v
            xs = [x for x in subs(v) if x.op == "fld" and x.a[1] == ns and x.a[0].op == "arg"]
            ok = len(xs) == 2 and len({x.a[0].a[0] for x in xs}) == 2
            res.ob(ok, "instant:" + nm, "Instants are not compared by their time: %s" % A.pp(v), t.w)
            if ok and v.op == "cmp":
                res.ob("self" in A.pp(v.a[0]), "instant:order", "the order of Instants is reversed", t.w)
    # the clock
    now, std = CL + "now", CL + "to_std_instant"
    if not (CQ.there(P, res, now, 1) and CQ.there(P, res, std, 2)):
        return
    t = Table(P, res, now)
    el = [x for x in t.all() if x.op in ("pure", "call") and method(x.a[0]) in ("elapsed", "duration_since", "saturating_duration_since") and "nstant" in x.a[0]]
    org = {y for x in el for y in subs(x) if y.op == "fld" and N("arg", "self") in subs(y)}
    org = {y for y in org if not any(z is not y and y in subs(z) for z in org)}
    res.ob(len(el) == 1 and len(org) == 1, "clock:now", "now is not the time since the clock's origin", t.w)
    for d in durs if len(el) == 1 else ():
        o = t.only("clock", {el[0]: d}, "%d ns after the clock was made" % d)
        if o is None:
            break
        res.ob(o[0] == min(d, top), "clock:elapsed", "%d ns after the clock was made, now is %s" % (d, o[0]), t.w)
    t = Table(P, res, std)
    os = [x for x in t.all() if x in org]
    nv = [x for x in t.all() if x.op == "fld" and x.a[1] == ns and x.a[0].op == "arg"]
    res.ob(len(os) == 1, "clock:origin", "to_std_instant does not start from the clock's origin", t.w)
    for o0 in (0, 1, 10 ** 18):
        for x in (0, 1, 10 ** 9, (1 << 52) + 1, 1 << 63, top):
            o = t.only("clock:std", {y: o0 for y in os} | {y: x for y in nv}, "the standard time of %d" % x)
            if o is None:
                return
            res.ob(o[0] == o0 + x, "clock:inverse", "%d ns after the origin %d is converted to %s" % (x, o0, o[0]), t.w)


def accessors(P, res, ns):
    """each time stamp, flag and weight is read from where it is written"""
    pairs = []
    for p in sorted(P.fns):
        m = re.match(r"^(<.* as common::concurrent::AccessTime>::|common::concurrent::(?:ValueEntry|KeyHashDate)::<[^>]*>::|" + re.escape(EI) + r")(last_accessed|last_modified|policy_weight|is_admitted|is_invalidated)$", p)
        if not m or P.fns[p]["kind"] != "fn" or P.fns[p]["args"] != 1:
            continue
        g = m.group(2)
        s = m.group(1) + "set_" + re.sub("^is_", "", g)
        pairs.append((p, g, s if s in P.fns else None))
    seen = {}
    for p, g, s in pairs:
        t = Table(P, res, p)
        c = t.cells()
        if len(c) != 1:
            res.ob(False, "access:cell", "%s reads %d cells" % (g, len(c)), t.w)
            continue
        c = c.pop()
        last = c.a[0].a[0] if g.startswith("last_") else c.a[0]
        res.ob(last.op == "fld", "access:field", "%s does not read a field" % g, t.w)
        seen.setdefault(g, set()).add(last.a[1])
        for x in ((0, 5, U64) if g.startswith("last_") else (0, 1) if g.startswith("is_") else (0, 1, 77, (1 << 32) - 1)):
            o = t.only("access", {c: x}, "%s of %d" % (g, x))
            if o:
                want = (("None",) if x == U64 else ("Some", x)) if g.startswith("last_") else x
                res.ob(o[0] == want, "access:value", "%s is %s for %d" % (g, o[0], x), t.w)
        if s is None:
            continue
        t = Table(P, res, s)
        pubs = {x[1] for e in t.ex for x in e.st.ts if x[0] == "pub"}
        res.ob(pubs == {c}, "access:same", "set_%s writes %s, %s reads %s" % (g, sorted(A.pp(x, -4) for x in pubs), g, A.pp(c, -4)), t.w)
        if g.startswith("last_"):
            continue
        ar = [x for x in t.all() if x.op == "arg" and x.a[0] != "self"]
        for x in (0, 1):
            o = t.only("access:set", {c: 1 - x} | {y: x for y in ar}, "set_%s" % g)
            if o:
                res.ob([y[1] for y in o[1]] == [x if ar else 1], "access:store", "set_%s of %d stores %s" % (g, x, [y[1] for y in o[1]]), t.w)
    fl = [(g, x) for g, xs in seen.items() for x in xs]
    res.ob(len({x for g, x in fl}) == len(fl) and all(len(x) == 1 for x in seen.values()), "access:own", "the accessors %s share or mix fields" % sorted(fl), "EntryInfo")
    for p in sorted(P.fns):
        if re.match(r"^common::concurrent::OldEntryInfo::<[^>]*>::new$", p):
            t = Table(P, res, p)
            for e in t.ex:
                for g in ("last_accessed", "last_modified"):
                    x = field(e.val, g) if isagg(e.val) else None
                    if x is None or not seen.get(g):
                        continue
                    cs = {y.a[0].a[0].a[1] for y in subs(x) if y.op == "cell" and y.a[0].op == "fld" and y.a[0].a[0].op == "fld"}
                    res.ob(cs <= seen[g], "access:old", "the replaced entry's %s is taken from %s" % (g, sorted(cs)), t.w)
        if re.match(r"^common::concurrent::(ValueEntry|KeyHashDate)::<[^>]*>::is_dirty$", p):
            t = Table(P, res, p)
            own = Table(P, res, EI + "is_dirty") if EI + "is_dirty" in P.fns else None
            if own is not None:
                a, b = ({c.a[0].a[1] for c in x.cells() if c.a[0].op == "fld"} for x in (t, own))
                res.ob(a == b and A.pp(t.ex[0].val, -2)[:1] == A.pp(own.ex[0].val, -2)[:1], "access:dirty", "is_dirty compares %s" % sorted(a), t.w)


def c21(P, res, tier="quick"):
    ns = inner(P, res)
    versions(P, res)
    if ns is None:
        return
    deadlines(P, res, ns)
    stamps(P, res, ns)
    instants(P, res, ns)
    accessors(P, res, ns)
