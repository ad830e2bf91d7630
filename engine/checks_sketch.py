"""C23: the frequency sketch counts what it is told, ages by halving, and never runs out of range.

Each operation is summarised by its paths (loops over the four rows are followed step by step). What a
summary says about one word of the table is judged as a bit-vector function: bit-wise linear terms are
decided by their 64 basis vectors, offsets by the 256 values of the hash's low byte.
"""
import re
import absint as A
import lib
import checks_queue as CQ
from absint import N, K, isagg, field, subs
from checks_reads import short
from moka_models import method

FS = "common::frequency_sketch::FrequencySketch::"
TAB, MASK, SIZE, SAMPLE = (N("fld", N("arg", "self"), x) for x in ("table", "table_mask", "size", "sample_size"))
M64 = (1 << 64) - 1


class SketchRule(lib.BaseRule):
    indexed = True
    unroll = True
    wants_store = True

    def __init__(self, stops=()):
        self.stops = stops
        self.agings = []
        self.whole = True

    def inline(self, p):
        return not any(s in p for s in self.stops)

    def track(self, a):
        return True

    def on(self, eng, st, ev):
        if ev.kind in ("iter_item", "iter_end") and TAB in subs(eng.deref_val(st, ev.args[0])):
            src = eng.deref_val(st, ev.args[0])
            self.whole = self.whole and all_words(src)
            if ev.kind == "iter_item":
                for x in [x for x in st.heap if ev.args[1] in subs(x)]:
                    del st.heap[x]                  # another word than before
            if not st.ts or st.ts[-1][0] != "age":
                st.ts = st.ts + (("age", complete(st), st.heap.get(SIZE)),)
        if ev.kind == "store" and ev.name == "*":
            at, v, old = ev.args
            if at.op == "item" and TAB in subs(at) or at.op == "idx" and at.a[0] is TAB and st.ts and st.ts[-1][0] == "age":
                self.agings.append((old, v, ev.loc(eng)))
            elif at.op == "idx" and at.a[0] is TAB:
                offs, cur = [], v
                while cur is not old:
                    nx = [(a, b) for a, b in commutes(cur, "Add") if b.op == "op" and b.a[0] == "Shl" and b.a[1] is K(1)]
                    if not nx:
                        break
                    offs.append(nx[0][1].a[2])
                    cur = nx[0][0]
                free = [f[:2] for f in (full(a, x) for a, x in st.facts.items()) if f and not f[2]]
                ok = cur is old and len(offs) == 1 and (old, offs[0]) in free
                st.ts = st.ts + (("add", at.a[1], offs[0] if offs else v, ok),)
        return None


def all_words(src):
    """the iteration runs over every word of the table"""
    if isagg(src) and src.a[0] == "std::ops::Range":
        a, b = (uncast(x) for x in src.a[3])
        return a is K(0) and b.op in ("pure", "op", "call") and TAB in subs(b) and ("len" in str(b.a[0]) or "Metadata" in str(b.a[0]))
    return src is TAB or src.op in ("pure", "call") and len(src.a[1]) == 1 and method(src.a[0]) in ("iter_mut", "into_iter", "iter", "deref_mut", "as_mut") and all_words(src.a[1][0])


def sample(t):
    """t is the sample size and one"""
    return t is not None and any(x.op in ("op", "pure", "call") and ("Add" in str(x.a[0]) or "_add" in str(x.a[0])) and SIZE in subs(x) for x in [t])


def complete(st):
    """is the sample complete? (None: it was not compared)"""
    for a, v in st.facts.items():
        if a.op == "le" and a.a[0] is SAMPLE and sample(a.a[1]):
            return v
        if a.op == "le" and a.a[1] is SAMPLE and sample(a.a[0]) and not v:
            return True
        if a.op == "eq" and SAMPLE in a.a and any(sample(x) for x in a.a):
            return v
    return None


class Unk(Exception):
    pass


def val(P, t, env):
    """the value of a term under a valuation of its atoms"""
    if t in env:
        return env[t]
    if t.op == "k" and isinstance(t.a[0], int):
        return t.a[0]
    if t.op == "const":
        c = P.consts.get(t.a[0])
        if c and "table" in c and len(c["table"]) == 1:
            return c["table"][0]
    if t.op == "idx" and t.a[0].op == "const":
        c = P.consts.get(t.a[0].a[0])
        i = val(P, t.a[1], env)
        if c and "table" in c and i < len(c["table"]):
            return c["table"][i]
    if t.op == "op":
        o, xs = t.a[0], [val(P, x, env) for x in t.a[1:]]
        if len(xs) == 2:
            x, y = xs
            if o in ("Shl", "Shr") and y >= 64 or o in ("Div", "Rem") and y == 0:
                raise Unk()
            r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y,
                 "BitXor": lambda: x ^ y, "Shl": lambda: (x << y) & M64, "Shr": lambda: x >> y, "Div": lambda: x // y, "Rem": lambda: x % y}.get(o)
            if r:
                return r()
        if o == "Not" and len(xs) == 1:
            return xs[0] ^ M64
    if t.op in ("eq", "le", "lt"):
        x, y = (val(P, z, env) for z in t.a)
        return {"eq": x == y, "le": x <= y, "lt": x < y}[t.op]
    if t.op in ("min", "max"):
        return (min if t.op == "min" else max)(val(P, x, env) for x in t.a)
    if t.op == "not":
        x = val(P, t.a[0], env)
        return not x if isinstance(x, bool) else x ^ M64
    if t.op in ("pure", "call"):
        m = method(t.a[0])
        xs = [val(P, x, env) for x in t.a[1]]
        if m == "pow" and len(xs) == 2:
            return pow(*xs)
        if m == "saturating_sub":
            return max(0, xs[0] - xs[1])
        if m in ("saturating_mul", "saturating_add"):
            return min((1 << 32) - 1, xs[0] * xs[1] if m.endswith("mul") else xs[0] + xs[1])
        if m.startswith("wrapping_") and len(xs) == 2:
            return {"add": xs[0] + xs[1], "sub": xs[0] - xs[1], "mul": xs[0] * xs[1]}[m[9:]] & M64
        if m == "next_power_of_two":
            return 1 << max(0, xs[0] - 1).bit_length() if xs[0] > 1 else 1
        if m in ("into", "from", "clone", "deref"):
            return xs[0]
    raise Unk(A.pp(t, -2))


def bitwise(t, x):
    """t is built from x by masks and constant shifts"""
    if t is x:
        return True
    if t.op == "op" and t.a[0] in ("Shl", "Shr"):
        return bitwise(t.a[1], x) and x not in subs(t.a[2])
    if t.op == "op" and t.a[0] == "BitAnd":
        a, b = t.a[1:]
        return bitwise(a, x) and x not in subs(b) or bitwise(b, x) and x not in subs(a)
    return x not in subs(t) and False


def commutes(t, o):
    if t.op == "op" and t.a[0] == o or t.op in ("pure", "call") and method(t.a[0]) == {"Add": "wrapping_add"}.get(o) and len(t.a[1]) == 2:
        a, b = t.a[1:] if t.op == "op" else t.a[1]
        return [(a, b), (b, a)]
    return []


def uncast(t):
    while t.op == "cast":
        t = t.a[0]
    return t


def counter_read(t):
    """(cell, offset) if t is one four-bit counter of a cell"""
    for a, b in commutes(t, "BitAnd"):
        if a is K(15) and b.op == "op" and b.a[0] == "Shr" and b.a[1].op == "idx" and b.a[1].a[0] is TAB:
            return b.a[1], b.a[2]
    return None


def leaves(t):
    if t.op == "min":
        return [y for x in t.a for y in leaves(x)]
    return [t]


def full(atom, v):
    """the fact says whether a counter is at its maximum: (cell, offset, is it), or None"""
    if atom.op == "eq":
        for a, b in ((atom.a[0], atom.a[1]), (atom.a[1], atom.a[0])):
            if a is K(15):
                c = counter_read(b)
                if c:
                    return c + (v,)
            if a.op == "op" and a.a[0] == "Shl" and a.a[1] is K(15):
                for m, cell in commutes(b, "BitAnd"):
                    if m is a and cell_of(cell):
                        return cell, a.a[2], v
    if atom.op == "le":
        a, b = atom.a
        if a is K(15) and counter_read(b):
            return counter_read(b) + (v,)
        if b is K(14) and counter_read(a):
            return counter_read(a) + (not v,)
    return None


def cell_of(t):
    """the table cell whose (possibly already changed) content t is"""
    while True:
        if t.op == "idx" and t.a[0] is TAB:
            return t
        n = [(a, b) for a, b in commutes(t, "Add") if b.op == "op" and b.a[0] == "Shl" and b.a[1] is K(1)]
        if not n:
            return None
        t = n[0][0]


def sketch(P, res, tier):
    def go(f, stops=()):
        w = FS + f
        r = SketchRule(stops)
        eng = A.Engine(P, r, [])
        ex = eng.run(w)
        res.cover(eng)
        return r, ex, short(w)

    gone = [f for f in ("frequency", "increment", "ensure_capacity") if FS + f not in P.fns]
    if gone:
        res.notes.append("FrequencySketch has no %s: the sketch is not analysed" % ", ".join(gone))
        return
    # --- frequency: the least of four counters
    rows = []
    r, ex, w = go("frequency")
    res.ob(len(ex) >= 2, "frequency:paths", "frequency is not the two cases it must be (empty table or not)", w)
    for e in ex:
        emp = [v for a, v in e.st.facts.items() if a.op in ("pure", "call") and method(a.a[0]) == "is_empty"] + \
              [v for a, v in e.st.facts.items() if a.op == "eq" and K(0) in a.a and any(x.op in ("pure", "call", "op") and TAB in subs(x) and "len" in str(x.a[0]) for x in a.a)]
        if not e.st.heap == {} and any(TAB in subs(x) for x in e.st.heap):
            res.ob(False, "frequency:pure", "asking for a frequency changes the sketch", w)
        if True in emp:
            res.ob(e.val is K(0), "frequency:empty", "the frequency in an empty sketch is %s" % A.pp(e.val), w)
            continue
        ls = [uncast(x) for x in leaves(uncast(e.val))]
        rest = [x for x in ls if counter_read(x) is None and not (x.op == "k" and x.a[0] >= 15)]
        res.ob(not rest, "frequency:min", "a frequency is not the minimum of counters of the table: %s" % A.pp(rest[0], -3) if rest else "", w)
        cs = {x for t in [e.val] + list(e.st.facts) for x in subs(t) if counter_read(x)}
        below = set(ls)
        while True:     # what the answer is known not to exceed
            more = {y for a, v in e.st.facts.items() if a.op == "le" for x, y in ((map(uncast, a.a),) if v else (map(uncast, a.a[::-1]),)) if x in below} - below
            if not more:
                break
            below |= more
        res.ob(cs <= below, "frequency:least", "a frequency can exceed one of its counters", w)
        mine = {(counter_read(x)[0].a[1], counter_read(x)[1]) for x in cs}
        res.ob(len(mine) == 4 and (not rows or set(rows) == mine), "frequency:rows", "a frequency is taken from %d counters" % len(mine), w)
        rows = sorted(mine, key=lambda x: x[0].n)
    # --- where the counters are
    h = [x for i, o in rows for x in subs(o) if x.op == "arg" and x.a[0] != "self"]
    for i, o in rows:
        i = uncast(i)
        ok = any(a is MASK for a, b in commutes(i, "BitAnd")) or i.op == "op" and i.a[0] == "Rem" and TAB in subs(i.a[2])
        res.ob(ok, "row:bound", "the index of a counter is not kept within the table: %s" % A.pp(i, -3), w)
        ok = bool(h) and h[0] in subs(i)
        res.ob(ok, "row:hash", "the index of a counter does not depend on the hash", w)
    res.ob(len({i for i, o in rows}) == len(rows) == 4, "row:distinct", "two rows of the sketch always use the same word", w)
    try:
        for b in range(256):
            os = [val(P, o, {h[0]: b}) for i, o in rows]
            res.ob(all(o % 4 == 0 and o <= 60 for o in os), "row:offset", "a counter does not lie within its word (offsets %s)" % os, w)
            res.ob(len(set(os)) == len(os), "row:offsets", "two rows of one hash share a counter (offsets %s)" % os, w)
    except (Unk, IndexError) as x:
        res.ob(False, "row:eval", "the position of a counter is not a function of the hash: %s" % x, w)
    seeds = {x for i, o in rows for x in subs(i) if x.op == "idx" and x.a[0].op == "const"}
    sv = []
    for s in seeds:
        try:
            sv.append(val(P, s, {}))
        except Unk:
            pass
    res.ob(len(set(sv)) == len(sv) and 0 not in sv and all(x & 1 for x in sv), "row:seeds", "the rows' seeds are not distinct odd numbers", w)
    def at(i, o):
        """a row, however its offset is written"""
        try:
            return i, tuple(val(P, o, {h[0]: b}) for b in range(256))
        except (Unk, IndexError):
            return i, o

    rows = [at(*x) for x in rows]
    # --- increment: each of the same four counters by one, unless full
    r, ex, w = go("increment")
    res.ob(len(ex) >= 3, "increment:paths", "increment has only %d cases" % len(ex), w)
    n = 0
    for e in ex:
        emp = any(a.op in ("pure", "call") and method(a.a[0]) == "is_empty" and v for a, v in e.st.facts.items())
        cells = {k: v for k, v in e.st.heap.items() if k.op == "idx" and k.a[0] is TAB}
        if emp:
            res.ob(not cells and SIZE not in e.st.heap, "increment:empty", "an empty sketch is changed", w)
            continue
        n += 1
        adds = [x for x in e.st.ts if x[0] == "add"]
        ages = [x for x in e.st.ts if x[0] == "age"]
        for x in adds:
            res.ob(x[3], "increment:by", "an increment adds more than one to a counter, or to one that may be at its maximum: %s" % A.pp(x[2], -3), w)
        added = [at(x[1], x[2]) for x in adds]
        res.ob(len(set(added)) == len(added), "increment:once", "one increment counts twice in one row", w)
        fs = [f for f in (full(a, v) for a, v in e.st.facts.items()) if f]
        sat = {at(cell_of(f[0]).a[1], f[1]) for f in fs if f[2]}
        missed = set(rows) - sat - set(added)
        res.ob(not missed, "increment:full", "an increment leaves out %d of the four counters the frequency is read from" % len(missed), w)
        res.ob(not set(added) - set(rows), "increment:rows", "an increment adds to a counter no frequency is read from", w)
        sz = e.st.heap.get(SIZE)
        if not added:
            res.ob(sz is None and not ages, "increment:none", "an increment that adds nothing changes the sample size or ages the sketch", w)
            continue
        reach = ages[0][1] if ages else complete(e.st)
        cur = ages[0][2] if ages else sz
        res.ob(sample(cur), "increment:size", "an increment that counts is not part of the sample", w)
        res.ob(reach is not None and reach == bool(ages), "increment:age", "the sketch is %s though the sample is %s" % ("aged" if ages else "not aged", {None: "not compared with its limit", True: "complete", False: "not complete"}[reach]), w)
        if ages:
            res.ob(sz is not None and not sample(sz) and halves(sz), "reset:size", "after aging the sample size is %s" % A.pp(sz, -4), w)
            bad = [x for x in subs(sz) if x.op == "op" and x.a[0] == "Sub" and x.a[2].op != "k"]
            res.ob(not bad, "reset:underflow", "the sample size can underflow when many odd counters are subtracted: %s" % A.pp(sz, -4), w)
    res.ob(n >= 2 and any(x[0] == "age" for e in ex for x in e.st.ts), "increment:aging", "no increment ever ages the sketch", w)
    # --- aging: every counter by half
    n = 0
    for it, v, loc in {(a, b, c) for a, b, c in r.agings}:
        n += 1
        ok = bitwise(v, it)
        if ok:
            try:
                bad = [b for b in range(64) if val(P, v, {it: 1 << b}) != (0 if b % 4 == 0 else 1 << (b - 1))]
            except Unk:
                bad = [-1]
            ok = not bad
        res.ob(ok, "reset:halve", "aging turns a word into %s, not its counters' halves" % A.pp(v, -4), loc)
    res.ob(r.whole, "reset:whole", "aging does not run over the whole table", w)
    res.ob(n >= 1, "reset:words", "aging does not change the words of the table", w)
    # --- capacity
    r, ex, w = go("ensure_capacity")
    arg = N("arg", "cap")
    a1 = {x for e in ex for t in list(e.st.facts) + list(e.st.heap.values()) for x in subs(t) if x.op == "arg" and x.a[0] != "self"}
    arg = a1.pop() if len(a1) == 1 else arg
    n = 0
    for cap in (0, 1, 2, 3, 7, 8, 127, 128, 129, 1 << 20, (1 << 24) + 1, 1 << 30, (1 << 30) + 1, (1 << 32) - 1):
        for ln in (0, 1, 2, 128, 256, 1 << 30):
            hit = 0
            for e in ex:
                env = {arg: cap}
                ls = [x for t in e.st.facts for x in subs(t) if x.op in ("pure", "call", "op") and TAB in subs(x) and ("len" in str(x.a[0]) or "Metadata" in str(x.a[0]))]
                for x in ls:
                    if not any(y is not x and y in subs(x) for y in ls):
                        env[x] = ln
                for x in {x for t in e.st.facts for x in subs(t) if x.op in ("pure", "call") and method(x.a[0]) == "is_empty" and TAB in subs(x)}:
                    env[x] = ln == 0
                try:
                    if not all(val(P, a, env) == bool(v) for a, v in e.st.facts.items()):
                        continue
                except Unk as x:
                    if not any(TAB in subs(a) for a in e.st.facts):
                        res.ob(False, "capacity:eval", "ensure_capacity depends on %s" % x, w)
                    continue
                hit += 1
                t = e.st.heap.get(TAB)
                if t is None:
                    res.ob(MASK not in e.st.heap and ln >= min(cap, 1 << 24) and ln > 0, "capacity:keep", "a table of %d words is kept for a capacity of %d" % (ln, cap), w)
                    continue
                n += 1
                fe = [x for x in subs(t) if x.op in ("pure", "call") and method(x.a[0]) == "from_elem"]
                try:
                    size = val(P, uncast(fe[0].a[1][1]), env) if fe else None
                    zero = fe and val(P, uncast(fe[0].a[1][0]), env) == 0
                    mask = val(P, uncast(e.st.heap[MASK]), env)
                    smp = val(P, uncast(e.st.heap[SAMPLE]), env)
                except (Unk, KeyError) as x:
                    res.ob(False, "capacity:set", "a new table without its mask and sample size (%s)" % x, w)
                    continue
                res.ob(bool(zero), "capacity:zero", "a new table does not start from zero", w)
                res.ob(size and size & (size - 1) == 0 and size >= min(cap, 1 << 24), "capacity:size", "a table of %s words for a capacity of %d" % (size, cap), w)
                res.ob(size is not None and mask == size - 1, "capacity:mask", "the mask is %s for %s words" % (mask, size), w)
                res.ob(0 < smp < 1 << 31, "capacity:sample", "a sample size of %s for a capacity of %d" % (smp, cap), w)
            res.ob(hit >= 1, "capacity:case", "no case of ensure_capacity covers capacity %d, length %d" % (cap, ln), w)
    res.ob(n >= 5, "capacity:new", "ensure_capacity makes no table", w)


def halves(sz):
    """sz <= half of the sample"""
    if sz.op == "k":
        return sz.a[0] == 0
    if sz.op in ("pure", "call") and method(sz.a[0]) == "saturating_sub" or sz.op == "op" and sz.a[0] == "Sub":
        return halves((sz.a[1] if sz.op != "op" else sz.a[1:])[0])
    if sz.op == "min":
        return any(halves(x) for x in sz.a)
    if sz.op == "op" and sz.a[0] in ("Shr", "Div"):
        return sample(sz.a[1]) and sz.a[2].op == "k" and (sz.a[2].a[0] >= 1 if sz.a[0] == "Shr" else sz.a[2].a[0] >= 2)
    return False


class ReadsRule(lib.BaseRule):
    """what happens to each received read operation"""

    def inline(self, p):
        return not p.startswith(FS) and "deques::" not in p and "timer_wheel::" not in p

    def key(self, ts):
        return ts

    def track(self, a):
        return a.op == "var" and any("try_recv" in A.pp(a, -2) for _ in (0,))

    def on(self, eng, st, ev):
        n = ev.name or ""
        if ev.kind == "call" and method(n) == "try_recv":
            st.ts = (("recv",),)
            self.seen += 1
        elif ev.kind == "call" and n.startswith(FS) and method(n) == "increment":
            st.ts = st.ts + (("inc", eng.deref_val(st, ev.args[1])),)
        return None


def readers(P, res, tier):
    """the operations read from the read log are counted"""
    n = 0
    for p in sorted(P.fns):
        if not re.search(r"base_cache::Inner::<K, V, S>::apply_reads$", p):
            continue
        n += 1
        w = short(p)

        class R(ReadsRule):
            seen = 0

            def on(self, eng, st, ev):
                end = ev.kind == "call" and method(ev.name or "") == "try_recv" or ev.kind == "iter_end"
                if end and st.ts and st.ts[0] == ("recv",):
                    judge(eng, st)
                if ev.kind == "iter_end":
                    st.ts = ()
                    return None
                return ReadsRule.on(self, eng, st, ev)

        cases = set()

        def judge(eng, st):
            ms = [(a, v) for a, v in st.facts.items() if a.op == "var" and any(method(x.a[0]) == "try_recv" for x in subs(a) if x.op in ("pure", "call"))]
            vs = {v for a, v in ms}
            incs = [x[1] for x in st.ts[1:] if x[0] == "inc"]
            if "Err" in vs:
                res.ob(not incs, "reads:none", "no read operation, yet one is counted", w)
                cases.add("Err")
                return
            c = "Hit" if "Hit" in vs else "Miss" if "Miss" in vs else None
            cases.add(c)
            ok = len(incs) == 1
            res.ob(ok, "reads:once", "a read operation (%s) is counted %d times" % (c, len(incs)), w)
            if ok:
                h = incs[0]
                src = any(x.op in ("pure", "call") and method(x.a[0]) == "try_recv" for x in subs(h))
                good = src and (h.op == "fld" and (h.a[1] == "hash" if c == "Hit" else True))
                res.ob(good, "reads:hash", "a %s counts %s" % (c, A.pp(h, -4)), w)

        r = R()
        eng = A.Engine(P, r, [])
        ex = eng.run(p)
        res.cover(eng)
        for e in ex:
            if e.st.ts and e.st.ts[0] == ("recv",):
                judge(eng, e.st)
        res.ob({"Hit", "Miss"} <= cases, "reads:cases", "the read log's operations are not told apart (%s)" % sorted(map(str, cases)), w)
    res.ob(n == 0 or n >= 2, "reads:both", "only %d caches have a read log" % n, "apply_reads")


class EnableRule(lib.BaseRule):
    def track(self, a):
        return a.op == "var" and "max_capacity" in A.pp(a, -3)

    def inline(self, p):
        return not p.startswith(FS)

    def on(self, eng, st, ev):
        n = ev.name or ""
        if ev.kind == "call" and n.startswith(FS):
            st.ts = st.ts + ((method(n),) + tuple(eng.deref_val(st, a) for a in ev.args[1:]),)
        elif ev.kind == "call" and re.search(r"Atomic(Bool)?(::)?(<.*>)?::(store|swap)$", n):
            a = eng.deref_val(st, ev.args[0]) if ev.args else None
            if "frequency_sketch_enabled" in A.pp(a, -2) if a is not None else False:
                st.ts = st.ts + (("flag", eng.deref_val(st, ev.args[1])),)
        return None


def enabling(P, res, tier):
    """the sketch has a table before anyone is told that it is in use"""
    n = 0
    for p in sorted(P.fns):
        if not re.search(r"base_cache::Inner::<K, V, S>::enable_frequency_sketch$", p):
            continue
        n += 1
        w = short(p)
        r = EnableRule()
        eng = A.Engine(P, r, [])
        seen = False
        ex = eng.run(p)
        res.cover(eng)
        for e in ex:
            caps = [x for x in e.st.ts if x[0] == "ensure_capacity"]
            flag = [i for i, x in enumerate(e.st.ts) if x[0] == "flag"]
            none = any(a.op == "var" and "max_capacity" in A.pp(a, -2) and v == "None" for a, v in e.st.facts.items())
            if none:
                res.ob(not caps and not flag, "enable:none", "a cache without a capacity gets a sketch", w)
                continue
            seen = True
            res.ob(len(caps) >= 1, "enable:table", "the sketch is switched on without a table", w)
            res.ob(bool(flag) and e.st.ts[flag[-1]][1] is K(1) and e.st.ts.index(caps[0]) < flag[0] if caps else False, "enable:flag", "the sketch's flag is not set after its table", w)
        res.ob(seen, "enable:case", "the sketch is never switched on", w)
    for p in sorted(P.fns):
        if not re.search(r"base_cache::Inner::<K, V, S>::should_enable_frequency_sketch$", p):
            continue
        w = short(p)
        eng = A.Engine(P, EnableRule(), [])
        ok = False
        ex = eng.run(p)
        res.cover(eng)
        for e in ex:
            v = e.val
            if v is K(0):
                continue
            # enabled no later than at half of the capacity
            cs = [x for x in subs(v) if x.op == "le"] if v.op != "k" else [a for a, b in e.st.facts.items() if a.op == "le"]
            on = any("frequency_sketch_enabled" in A.pp(a, -2) and b is False for a, b in e.st.facts.items())
            lim = [x for x in subs(v) if x.op == "op" and x.a[0] in ("Div", "Shr")]
            good = v is K(1) or any("weighted_size" in A.pp(x.a[1], -3) and "max_capacity" in A.pp(x.a[0], -3) for x in cs)
            res.ob(good and on, "enable:when", "the sketch is switched on when %s" % A.pp(v, -4), w)
            if good:
                ok = True
                for x in cs:
                    m = [y for y in subs(x.a[0]) if y.op == "fld" and "max_capacity" in A.pp(y, -3)]
                    try:
                        late = any(val(P, x.a[0], {y: c for y in m}) > c for c in (1, 2, 3, 1000)) if m else False
                    except Unk:
                        late = True
                    res.ob(not late, "enable:limit", "the sketch is not switched on before the cache is full: %s" % A.pp(x, -4), w)
        res.ob(ok, "enable:ever", "the sketch is never to be switched on", w)
    res.ob(n == 0 or n >= 2, "enable:both", "only %d caches enable the sketch" % n, "enable_frequency_sketch")


def c23(P, res, tier="quick"):
    sketch(P, res, tier)
    readers(P, res, tier)
    enabling(P, res, tier)
