"""A path-sensitive, property-directed dataflow engine over dumped MIR (in the style of
ESP / trace partitioning).

* Abstract state  = value environment (hash-consed value trees and pure terms) + branch
  facts + a *property state* owned by the rule being checked.
* Two states reaching the same program point are merged unless they differ in the
  property state, in a fact the rule tracks, or in the constructor (variant / boolean /
  moved-ness) of a named local of the current frame.  Merged values become phi terms and
  merged facts are intersected, so the analysis reaches a fixpoint on loops.
* Crate-local callees, closures and coroutines are analysed in the context of their call
  (inlined) when the rule asks for it; everything else is opaque or has a model.

There is no solver and no concrete execution: the only reasoning on conditions is lookup
of syntactic facts on normalised terms.
"""
import re, sys
from collections import deque
import heapq

sys.setrecursionlimit(20000)


# --------------------------------------------------------------------------- values
class Node:
    __slots__ = ("op", "a", "_subs", "n")

    def __repr__(self):
        return pp(self)


_tab = {}
_cnt = [0]


def N(op, *a):
    k = (op,) + a
    r = _tab.get(k)
    if r is None:
        r = Node()
        r.op = op
        r.a = a
        r._subs = None
        _cnt[0] += 1
        r.n = _cnt[0]
        _tab[k] = r
    return r


def subs(n):
    if n._subs is None:
        s = {n}
        for x in n.a:
            if isinstance(x, Node):
                s |= subs(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Node):
                        s |= subs(y)
        n._subs = frozenset(s)
    return n._subs


SOURCES = ("chtiter", "chtval", "chtkey", "chtold", "now", "payload", "item")
EXTRA_SOURCES = []      # further sources a check wants to follow: functions from terms to names


def prov(*vs):
    """Provenance kept by a joined value: the sources it may come from."""
    s = set()
    for v in vs:
        for x in subs(v):
            if x.op in SOURCES or (x.op == "fld" and x.a[1] == "value" and x.a[0].op in ("chtval", "chtold")):
                s.add(x)
            elif x.op == "src":
                s.add(x)
            else:
                for f in EXTRA_SOURCES:
                    if f(x):
                        s.add(N("src", f(x)))
    return tuple(sorted(s, key=lambda x: x.n))


UNIT = N("unit")
MOVED = N("moved")
TRUE = N("k", 1)
FALSE = N("k", 0)


def K(v):
    return N("k", int(v))


def AGG(tag, variant, names, vals):
    return N("agg", tag, variant, tuple(names), tuple(vals))


OPT = "std::option::Option"
RES = "std::result::Result"
POLL = "std::task::Poll"
NONE = AGG(OPT, "None", (), ())


def SOME(v):
    return AGG(OPT, "Some", ("0",), (v,))


def OK(v):
    return AGG(RES, "Ok", ("0",), (v,))


def ERR(v):
    return AGG(RES, "Err", ("0",), (v,))


def READY(v):
    return AGG(POLL, "Ready", ("0",), (v,))


PENDING = AGG(POLL, "Pending", (), ())


def TUP(*v):
    return AGG("tuple", None, tuple(str(i) for i in range(len(v))), v)


def isagg(v, tag=None, var=None):
    return v.op == "agg" and (tag is None or v.a[0] == tag) and (var is None or v.a[1] == var)


def field(v, name):
    try:
        return v.a[3][v.a[2].index(name)]
    except ValueError:
        return None


def with_field(v, name, x):
    i = v.a[2].index(name)
    vals = list(v.a[3])
    vals[i] = x
    return N("agg", v.a[0], v.a[1], v.a[2], tuple(vals))


def short(name):
    if not isinstance(name, str):
        name = str(name[1])
    name = re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", name)))
    name = name.replace("::::", "::").strip(":")
    return "::".join(name.split("::")[-2:])


def pp(v, d=0):
    if not isinstance(v, Node):
        return str(v)
    if d > 6:
        return "…"
    o = v.op
    if o == "k":
        return str(v.a[0])
    if o == "fld":
        b = v.a[0]
        return "%s.%s" % (pp(b, d + 1), v.a[1])
    if o == "as":
        return "%s" % (pp(v.a[0], d + 1))
    if o == "arg":
        return str(v.a[0])
    if o == "agg":
        t = v.a[1] or short(v.a[0])
        return "%s(%s)" % (t, ", ".join(pp(x, d + 1) for x in v.a[3]))
    if o == "ref":
        return "&local"
    if o in ("call", "pure"):
        return "%s(%s)" % (short(v.a[0]), ", ".join(pp(x, d + 1) for x in v.a[1]))
    if o in ("le", "eq", "lt"):
        return "%s %s %s" % (pp(v.a[0], d + 1), {"le": "<=", "eq": "==", "lt": "<"}[o], pp(v.a[1], d + 1))
    if o == "not":
        return "!" + pp(v.a[0], d + 1)
    if o == "var":
        return "variant(%s)" % pp(v.a[0], d + 1)
    if o == "phi":
        return "φ"
    if o == "fn":
        return short(v.a[0])
    if not v.a:
        return o
    return "%s(%s)" % (o, ", ".join(pp(x, d + 1) for x in v.a if isinstance(x, (Node, str, int))))


def NOT(v):
    if v.op == "k":
        return K(1 - v.a[0])
    if v.op == "not":
        return v.a[0]
    return N("not", v)


def LE(a, b):
    if a.op == "k" and b.op == "k":
        return K(a.a[0] <= b.a[0])
    if a is b:
        return TRUE
    return N("le", a, b)


def isground(v):
    return v.op == "k" or v.op == "unit" or (v.op == "agg" and all(isground(x) for x in v.a[3]))


def EQ(a, b):
    if a is b:
        return TRUE
    if isground(a) and isground(b):
        return FALSE
    if isagg(a) and isagg(b) and a.a[1] is not None and a.a[1] != b.a[1]:
        return FALSE
    if a.n > b.n:
        a, b = b, a
    return N("eq", a, b)


_phis = {}


def phis(n):
    r = _phis.get(n)
    if r is None:
        r = _phis[n] = frozenset(x for x in subs(n) if x.op == "phi")
    return r


def ts_phis(t, out):
    if isinstance(t, Node):
        out |= phis(t)
    elif isinstance(t, (tuple, frozenset)):
        for x in t:
            ts_phis(x, out)


WIDTHS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64}
AU_OPS = frozenset(["fld", "as", "call", "pure", "tadd", "op", "not", "le", "lt", "eq", "var", "aload", "instant", "adapt", "cast"])


def rename(t, m, memo):
    """replace phi terms; m: phi -> term"""
    if isinstance(t, tuple):
        return tuple(rename(x, m, memo) for x in t)
    if not isinstance(t, Node):
        return t
    if not (phis(t) & m.keys()):
        return t
    r = memo.get(t)
    if r is None:
        r = m.get(t)
        if r is None:
            r = N(t.op, *[rename(x, m, memo) for x in t.a])
        memo[t] = r
    return r


class Joiner:
    """Merges two states: differing terms are anti-unified, one merged name per pair of
    values, so that relations between the values of one state survive.  A name must not
    already stand for an earlier value (of a previous loop iteration) in either state."""

    def __init__(self, s1, s2, val=None):
        self.s1, self.s2 = s1, s2
        self.v1 = val
        self.occ = None
        self.new = set()
        self.forced = []
        self.pairs = {}
        self.bound = {}
        if s1.intro:
            o = set()
            self.scan(s2, o)
            if val is not None:
                o |= phis(val)
            stale = o & s1.intro
            if stale:
                m = {p: N("phi", p.a[0] + "~", p.a[1]) for p in stale}
                memo = {}
                t = s2.copy()
                t.intro = s2.intro
                t.fr = {f: {l: rename(v, m, memo) for l, v in d.items()} for f, d in s2.fr.items()}
                t.facts = {rename(a, m, memo): v for a, v in s2.facts.items()}
                t.heap = {rename(k, m, memo): rename(v, m, memo) for k, v in s2.heap.items()}
                self.s2 = t
                self.rm = (m, memo)
            else:
                self.rm = None
        else:
            self.rm = None

    def scan(self, s, o):
        for f in s.fr.values():
            for v in f.values():
                if v.op != "unit":
                    o |= phis(v)
        for a in s.facts:
            o |= phis(a)
        for a, v in s.heap.items():
            o |= phis(a)
            o |= phis(v)

    def val2(self, v):
        return rename(v, self.rm[0], self.rm[1]) if self.rm else v

    def occurring(self):
        o = set()
        for s in (self.s1, self.s2):
            self.scan(s, o)
            ts_phis(s.ts, o)
        if self.v1 is not None:
            o |= phis(self.v1)
        return o

    def name(self, key, pr, v, w):
        n = self.pairs.get((v, w))
        if n is not None:
            return n
        if v.op == "phi" and v in self.s1.intro and v.a[1] == pr and self.bound.get(v, w) is w:
            self.bound[v] = w
            self.pairs[(v, w)] = v
            return v
        if self.occ is None:
            self.occ = self.occurring()
        for g in range(6):
            n = N("phi", key + "'" * g, pr)
            if n not in self.occ:
                break
        else:
            self.forced.append(n)
        self.new.add(n)
        self.occ.add(n)
        self.pairs[(v, w)] = n
        return n

    def au(self, a, b, key):
        if a is b:
            return a
        if a.op == b.op and a.op in AU_OPS and len(a.a) == len(b.a):
            args = []
            for x, y in zip(a.a, b.a):
                if isinstance(x, Node) and isinstance(y, Node):
                    args.append((x, y))
                elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and all(isinstance(p, Node) and isinstance(q, Node) for p, q in zip(x, y)):
                    args.append(tuple(zip(x, y)))
                elif x == y and not isinstance(x, Node):
                    args.append(x)
                else:
                    break
            else:
                def one(p):
                    return self.au(p[0], p[1], key)
                out = [one(p) if isinstance(p, tuple) and len(p) == 2 and isinstance(p[0], Node) else
                       tuple(one(q) for q in p) if isinstance(p, tuple) and p and isinstance(p[0], tuple) else p for p in args]
                return rebuild(a.op, out)
        return self.name(key, prov(a, b), a, b)

    def matched(self, a, b):
        """the common generalisation of two atoms using only the merged names, or None"""
        if a is b:
            return a if not (phis(a) & self.s1.intro) or self.rm is None else None
        n = self.pairs.get((a, b))
        if n is not None:
            return n
        if a.op != b.op or len(a.a) != len(b.a):
            return None
        out = []
        for x, y in zip(a.a, b.a):
            if isinstance(x, Node) and isinstance(y, Node):
                r = self.matched(x, y)
                if r is None:
                    return None
                out.append(r)
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) != len(y):
                    return None
                r = []
                for p, q in zip(x, y):
                    if isinstance(p, Node) and isinstance(q, Node):
                        z = self.matched(p, q)
                        if z is None:
                            return None
                        r.append(z)
                    elif p == q and not isinstance(p, Node):
                        r.append(p)
                    else:
                        return None
                out.append(tuple(r))
            elif x == y and not isinstance(x, Node):
                out.append(x)
            else:
                return None
        return rebuild(a.op, out)


def rebuild(op, args):
    if op == "eq" and len(args) == 2 and args[0].n > args[1].n:
        args = [args[1], args[0]]
    return N(op, *args)


# --------------------------------------------------------------------------- state
class State:
    __slots__ = ("fr", "facts", "heap", "ts", "moved", "hist", "intro")

    def __init__(self):
        self.fr = {}
        self.facts = {}
        self.heap = {}
        self.ts = None
        self.moved = frozenset()
        self.hist = None
        self.intro = frozenset()

    def copy(self):
        s = State.__new__(State)
        s.fr = {k: dict(v) for k, v in self.fr.items()}
        s.facts = dict(self.facts)
        s.heap = dict(self.heap)
        s.ts = self.ts
        s.moved = self.moved
        s.hist = self.hist
        s.intro = frozenset()
        return s

    def note(self, what):
        self.hist = (self.hist, what)

    def trail(self, n=14):
        out = []
        h = self.hist
        while h and len(out) < n:
            out.append(h[1])
            h = h[0]
        return list(reversed(out))


class Ev:
    __slots__ = ("kind", "name", "args", "fid", "fn", "blk", "ln", "ty", "site", "raw", "vals", "dty", "ga")

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))

    def loc(self, eng):
        f = eng.P.fns.get(self.fn)
        return "%s:%s in %s" % (f["span"][0] if f else "?", self.ln, self.fn)


def liveness(fn):
    """Per block: the locals whose value at entry no path reads any more (address never taken)."""
    r = fn.get("_dead")
    if r is not None:
        return r
    taken = {0}

    def places(o, out):
        # an operand or rvalue part
        if isinstance(o, (list, tuple)):
            if len(o) == 2 and o[0] in ("c", "m") and isinstance(o[1], (list, tuple)):
                place(o[1], out)
            elif o and o[0] == "k":
                return
            else:
                for x in o:
                    places(x, out)

    def place(p, out):
        out.add(p[0])
        for e in p[1]:
            if e != "*" and e[0] == "i":
                out.add(e[1])
    B = fn["blocks"]
    steps, succ = [], []
    for b in B:
        ss = []
        for x in b["s"]:
            if x[0] == "=":
                u = set()
                rv = x[2]
                if rv[0] in ("ref", "raw"):
                    q = rv[2] if rv[0] == "ref" else rv[1]
                    taken.add(q[0])
                    place(q, u)
                elif rv[0] == "disc":
                    place(rv[1], u)
                elif rv[0] in ("use", "cast", "bin", "un", "agg", "rep"):
                    places(list(rv[1:]), u)
                else:
                    return fn.setdefault("_dead", [frozenset()] * len(B))
                if x[1][1]:
                    place(x[1], u)
                    ss.append((None, u))
                else:
                    ss.append((x[1][0], u))
            elif x[0] == "sd":
                u = set()
                place(x[1], u)
                ss.append((None, u))
        t = b["t"]
        u = set()
        k = t["k"]
        nx = []
        if k == "call":
            places(t["f"], u)
            places(t["a"], u)
            if t["d"][1]:
                place(t["d"], u)
        elif k == "drop":
            if t.get("nd", True):
                place(t["p"], u)
        elif k in ("switch", "assert"):
            places(t["d"], u)
        elif k == "yield":
            places(t.get("v"), u)
        if k == "switch":
            nx += [y for _, y in t["v"]] + [t["o"]]
        else:
            for f in ("t", "u", "drop"):
                if isinstance(t.get(f), int) and not isinstance(t.get(f), bool):
                    nx.append(t[f])
        ss.append((None, u))
        steps.append(ss)
        succ.append(nx)
    live = [set() for _ in B]
    ch = True
    while ch:
        ch = False
        for i in range(len(B) - 1, -1, -1):
            l = set()
            for n in succ[i]:
                l |= live[n]
            for d, u in reversed(steps[i]):
                if d is not None:
                    l.discard(d)
                l |= u
            if l != live[i]:
                live[i] = l
                ch = True
    every = set(range(1, len(fn["locals"]))) - taken
    # locals whose storage has ended on every path here (their address may have been taken)
    allv = set(range(1 + fn["args"], len(fn["locals"])))
    gone = [None] * len(B)
    gone[0] = set(allv)
    work = [0]
    while work:
        i = work.pop()
        g = set(gone[i])
        for x in B[i]["s"]:
            if x[0] == "dead":
                if x[1] in allv:
                    g.add(x[1])
            elif x[0] == "=":
                g.discard(x[1][0])
                if x[2][0] in ("ref", "raw"):
                    g.discard((x[2][2] if x[2][0] == "ref" else x[2][1])[0])
        t = B[i]["t"]
        if t["k"] == "call":
            g.discard(t["d"][0])
        elif t["k"] == "yield":
            g.discard(t["ra"][0])
        for n in succ[i]:
            m = g if gone[n] is None else gone[n] & g
            if m != gone[n]:
                gone[n] = set(m)
                work.append(n)
    fn["_dead"] = [frozenset((every - l) | (gone[i] or set())) for i, l in enumerate(live)]
    return fn["_dead"]


class Exit:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val):
        self.kind = kind
        self.st = st
        self.val = val


class Rule:
    """Override what is needed."""
    cancel = False
    wants_store = False
    indexed = False         # array elements are told apart by their index term
    unroll = False          # loops over short known sequences are followed step by step
    narrow = False          # narrowing integer casts are kept as terms
    max_states = 400

    def init(self):
        return ()

    def inline(self, path):
        return True

    def on(self, eng, st, ev):
        return None

    def model(self, eng, st, ev):
        return None

    def fact(self, eng, st, atom, val):
        return None

    def track(self, atom):
        return False

    def unwinds(self, eng, ev):
        return False

    def key(self, ts):
        return ts


class EngineError(Exception):
    pass


TRANSPARENT_NEW = re.compile(
    r"(^|::)(Arc|Rc|Box|MiniArc|TrioArc)(::<[^>]*(<[^>]*>)?[^>]*>)?::(new|pin|from)$|Pin::<.*>::(new|new_unchecked|get_mut|get_unchecked_mut|into_inner|as_mut|as_ref|get_ref)$"
    r"|FutureExt::(boxed|boxed_local|shared|fuse)$|std::convert::(Into|From)::(into|from)$"
    r"|Into<U>>::into$|IntoFuture>?::into_future$|std::hint::must_use$|AssertUnwindSafe")
DEREF = re.compile(
    r"(Deref(Mut)?(>| )?|AsRef<.*>|AsMut<.*>|Borrow<.*>|BorrowMut<.*>|std::convert::AsRef|std::borrow::Borrow)(>)?::(deref|deref_mut|as_ref|as_mut|borrow|borrow_mut)$")
CLONE = re.compile(r"(Clone>?|ToOwned>?)::(clone|to_owned)$|Clone for \w+>::clone$")
CMP = re.compile(r"Partial(Ord|Eq)(<.*>)?( for .*)?>?::(le|lt|ge|gt|eq|ne|partial_cmp)$|Ord( for .*)?>?::(cmp|max|min)$")
PURE = re.compile(
    r"core::num::|std::f64::|std::any::TypeId|::as_nanos$|Duration::|Instant::(checked|saturating|duration)|::len$|is_empty$|hash_one|"
    r"std::(cmp|ops::(Add|Sub))|trailing_zeros|std::ptr::(eq|null)|NonNull|Iterator::(flatten|min|max|cloned|copied|peekable|collect|sum|filter|map|count|rev|enumerate|zip|chain)$"
    r"|MiniArc::<T>::ptr_eq$|array::iter|slice::<impl \[T\]>::(iter|iter_mut)$|discriminant|Equivalent::equivalent|RangeInclusive|next_power_of_two")


class Engine:
    def __init__(self, prog, rule, models=None):
        self.P = prog
        self.rule = rule
        self.models = models or []
        self.fids = {}
        self.finfo = {}
        self.tty = {}
        self.stack = []
        self.visited_fns = set()
        self.visited_calls = 0
        self.steps = 0
        self.max_steps = 4_000_000
        self.reports = {}
        self._rpo = {}
        self._retl = {}

    # ---- frames
    def fid(self, parent, blk, path):
        k = (parent, blk, path)
        r = self.fids.get(k)
        if r is None:
            r = len(self.fids) + 1
            self.fids[k] = r
            self.finfo[r] = k
        return r

    def site(self, fid, blk):
        return "s%d_%s" % (fid, blk)

    # ---- addresses
    def load_root(self, st, root):
        if root[0] == "c":
            f = st.fr.get(root[1])
            if f is None:
                return N("dangling", root[1], str(root[2]))
            v = f.get(root[2])
            if v is None:
                v = N("uninit", root[1], str(root[2]))
            return v
        return st.heap.get(root[1], root[1])

    def load(self, st, addr):
        root, projs = addr
        v = self.load_root(st, root)
        for p in projs:
            v = self.proj(st, v, p)
        return v

    def proj(self, st, v, p):
        if v.op == "ref":
            v = self.deref_val(st, v)
        if p[0] == "f":
            if v.op == "agg":
                x = field(v, p[1])
                if x is not None:
                    return x
                if len(v.a[3]) == 1 and not v.a[1]:
                    return v.a[3][0]
                return N("fld", v, p[1])
            t = N("fld", v, p[1])
            return st.heap.get(t, t)
        if p[0] == "v":
            if v.op == "agg":
                return v
            return N("as", v, p[1])
        return N("idx", v)

    def deref_val(self, st, v, n=6):
        while v.op == "ref" and n:
            v = self.load(st, self.ref_addr(v))
            n -= 1
        return v

    def ref_addr(self, v):
        if v.a[0] == "c":
            return (("c", v.a[1], v.a[2]), v.a[3])
        return (("t", v.a[1]), v.a[3])

    def mkref(self, addr):
        root, projs = addr
        if root[0] == "c":
            return N("ref", "c", root[1], root[2], projs)
        if not projs:
            return root[1]
        return N("ref", "t", root[1], 0, projs)

    def addr(self, st, fid, place):
        root = ("c", fid, place[0])
        projs = ()
        for e in place[1]:
            v = self.load(st, (root, projs))
            if e == "*":
                if v.op == "ref":
                    root, projs = self.ref_addr(v)
                elif v.op == "agg" or v.op == "moved":
                    pass
                else:
                    root, projs = ("t", v), ()
            elif e[0] == "f":
                if v.op == "ref":
                    root, projs = self.ref_addr(v)
                    v = self.load(st, (root, projs))
                if v.op == "agg":
                    if field(v, e[2]) is not None:
                        projs = projs + (("f", e[2]),)
                    elif len(v.a[3]) == 1 and v.a[1] is None:
                        projs = projs + (("f", v.a[2][0]),)
                    else:
                        root, projs = ("t", N("fld", v, e[2])), ()
                else:
                    root, projs = ("t", N("fld", v, e[2])), ()
            elif e[0] == "v":
                if v.op == "ref":
                    root, projs = self.ref_addr(v)
                    v = self.load(st, (root, projs))
                if v.op != "agg":
                    root, projs = ("t", N("as", v, e[2])), ()
            elif e[0] == "ci" and v.op == "agg" and field(v, str(e[1])) is not None:
                projs = projs + (("f", str(e[1])),)
            else:
                if v.op == "agg" and v.a[0] == "array" and e[0] == "i":
                    iv = self.load_root(st, ("c", fid, e[1]))
                    if iv.op == "k" and field(v, str(iv.a[0])) is not None:
                        projs = projs + (("f", str(iv.a[0])),)
                        continue
                if e[0] == "i" and self.rule.indexed:
                    root, projs = ("t", N("idx", v, self.deref_val(st, self.load_root(st, ("c", fid, e[1]))))), ()
                else:
                    root, projs = ("t", N("idx", v)), ()
        return (root, projs)

    def store(self, st, addr, val):
        root, projs = addr
        if projs:
            base = self.load_root(st, root)
            val = self._upd(st, base, projs, val)
        if root[0] == "c":
            f = st.fr.get(root[1])
            if f is not None:
                f[root[2]] = val
                if st.moved and (root[1], root[2]) in st.moved and not projs:
                    st.moved = st.moved - {(root[1], root[2])}
        else:
            st.heap[root[1]] = val
            self.kill_facts(st, root[1])

    def _upd(self, st, base, projs, val):
        if not projs:
            return val
        p = projs[0]
        if base.op == "agg" and p[0] == "f" and field(base, p[1]) is not None:
            return with_field(base, p[1], self._upd(st, field(base, p[1]), projs[1:], val))
        if p[0] == "v":
            return self._upd(st, base, projs[1:], val)
        return base

    def kill_facts(self, st, term):
        dead = [a for a in st.facts if term in subs(a)]
        for a in dead:
            del st.facts[a]

    # ---- operands / rvalues
    def operand(self, st, fid, o, subst):
        if o[0] == "k":
            k = o[1]
            if "fn" in k:
                return N("fn", k.get("res") or k["fn"], self._ga(k, subst), k.get("trait") or "")
            if "v" in k:
                return K(k["v"])
            if k.get("ty") == "()":
                return UNIT
            if k.get("static"):
                return N("const", k["static"], k.get("ty", ""))
            if k.get("const"):
                c = self.P.consts.get(k["const"])
                if c and "v" in c:
                    return K(c["v"])
            return N("const", k.get("txt", "") or k.get("const", ""), k.get("ty", ""))
        pl = o[1]
        ad = self.addr(st, fid, pl)
        v = self.load(st, ad)
        if o[0] == "m":
            root, projs = ad
            if root[0] == "c":
                if not projs:
                    if root[1] in st.fr:
                        st.fr[root[1]][root[2]] = MOVED
                else:
                    self.store(st, ad, MOVED)
            elif pl[1] and "*" not in pl[1]:
                st.moved = st.moved | {(fid, pl[0])}
        return v

    def _ga(self, k, subst):
        out = []
        for g in k.get("ga", ()):
            if isinstance(g, list):
                h = g[1] if len(g) > 1 else g[0]
                if h.startswith("param:"):
                    h = subst.get(h[6:], h)
                out.append(h)
        return tuple(out)

    def binop(self, op, a, b):
        if op in ("Le",):
            return LE(a, b)
        if op == "Ge":
            return LE(b, a)
        if op == "Lt":
            return NOT(LE(b, a))
        if op == "Gt":
            return NOT(LE(a, b))
        if op == "Eq":
            return EQ(a, b)
        if op == "Ne":
            return NOT(EQ(a, b))
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        r = None
        if a.op == "k" and b.op == "k":
            x, y = a.a[0], b.a[0]
            try:
                r = {"Add": x + y, "Sub": x - y, "Mul": x * y, "Div": x // y if y else None,
                     "Rem": x % y if y else None, "BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y,
                     "Shl": x << y if 0 <= y < 64 else None,
                     "Shr": x >> y if 0 <= y < 64 else None}.get(base)
            except Exception:
                r = None
            if r is not None:
                r = K(r)
        if r is None:
            if base in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and a.n > b.n:
                a, b = b, a
            r = N("op", base, a, b)
        if op.endswith("WithOverflow"):
            return TUP(r, FALSE)
        return r

    def rvalue(self, st, fid, rv, subst):
        k = rv[0]
        if k == "use":
            return self.operand(st, fid, rv[1], subst)
        if k in ("ref", "raw"):
            ad = self.addr(st, fid, rv[2] if k == "ref" else rv[1])
            v = self.mkref(ad)
            return v
        if k == "cast":
            v = self.operand(st, fid, rv[2], subst)
            if self.rule.narrow and rv[1] == "IntToInt" and rv[3] in WIDTHS and not (v.op == "k" and 0 <= v.a[0] < 1 << WIDTHS[rv[3]] - (rv[3][0] == "i")):
                return N("cast", v, rv[3])      # the value cut to the width of the type
            return v
        if k == "bin":
            a = self.operand(st, fid, rv[2], subst)
            b = self.operand(st, fid, rv[3], subst)
            return self.binop(rv[1], a, b)
        if k == "un":
            v = self.operand(st, fid, rv[2], subst)
            if rv[1] == "Not":
                if v.op == "k" and v.a[0] not in (0, 1):
                    return N("op", "Not", v)
                return NOT(v)
            if rv[1] == "Neg" and v.op == "k":
                return K(-v.a[0])
            return N("op", rv[1], v)
        if k == "disc":
            v = self.load(st, self.addr(st, fid, rv[1]))
            v = self.deref_val(st, v)
            return N("disc", v, rv[2] or "")
        if k == "agg":
            vals = [self.operand(st, fid, o, subst) for o in rv[2]]
            kd = rv[1]
            if kd[0] == "adt":
                if kd[1] in ("std::pin::Pin",):
                    return vals[0]
                en = kd[1] in self.P.enums
                names = kd[4]
                if kd[5] is not None:
                    names = [names[kd[5]]]
                return AGG(kd[1], kd[3] if en or len(kd) < 4 else None, names, vals)
            if kd[0] in ("tuple", "array"):
                return AGG(kd[0], None, [str(i) for i in range(len(vals))], vals)
            if kd[0] in ("closure", "coroutine"):
                sb = tuple(sorted((a, b) for a, b in subst.items()))
                return N("agg", (kd[0], kd[1], sb), None, tuple(str(i) for i in range(len(vals))), tuple(vals))
            return N("op", "rawptr", *vals)
        if k == "rep":
            return N("op", "rep", self.operand(st, fid, rv[1], subst))
        return N("opaque", str(k))

    # ---- branching
    def lookup(self, st, atom):
        if atom in st.facts:
            return st.facts[atom]
        if atom.op == "le":
            r = st.facts.get(N("le", atom.a[1], atom.a[0]))
            if r is False:
                return True
        return None

    def assume(self, st, atom, val):
        """Record atom=val in st (mutates); returns list of states (rule may refine)."""
        cur = self.lookup(st, atom)
        if cur is not None:
            if isinstance(cur, tuple) and not isinstance(val, tuple):
                if val in cur[1]:
                    return []
            elif isinstance(cur, tuple) and isinstance(val, tuple):
                val = ("not", cur[1] | val[1])
                if val == cur:
                    return [st]
            elif isinstance(val, tuple):
                return [] if cur in val[1] else [st]
            else:
                return [st] if cur == val else []
        st.facts[atom] = val
        if atom.op == "var" and atom.a[0].op == "cmp" and not isinstance(val, tuple):
            a, b = atom.a[0].a
            st.facts[N("le", a, b)] = val in ("Less", "Equal")
            st.facts[N("le", b, a)] = val in ("Greater", "Equal")
            st.facts[EQ(a, b)] = val == "Equal"
        r = self.rule.fact(self, st, atom, val)
        return [st] if r is None else r

    def branch_bool(self, st, v, want):
        """States in which boolean value v equals want."""
        if v.op == "k":
            return [st] if bool(v.a[0]) == want else []
        if v.op == "not":
            return self.branch_bool(st, v.a[0], not want)
        if v.op == "op" and v.a[0] in ("BitAnd", "BitOr") and len(v.a) == 3:
            conj = v.a[0] == "BitAnd"
            if want == conj:
                out = []
                for s in self.branch_bool(st, v.a[1], want):
                    out += self.branch_bool(s, v.a[2], want)
                return out
            out = self.branch_bool(st.copy(), v.a[1], want)
            for s in self.branch_bool(st, v.a[1], not want):
                out += self.branch_bool(s, v.a[2], want)
            return out
        if v.op == "eq" and (isagg(v.a[0]) or isagg(v.a[1])):
            a, b = v.a
            if isagg(a) and not isagg(b):
                a, b = b, a
            if isagg(b) and b.a[1] is not None and not isagg(a):
                # term == Enum::Variant(..)
                pay = [(N("fld", N("as", a, b.a[1]), str(i)), x) for i, x in enumerate(b.a[3])]
                if want:
                    out = []
                    for s in self.assume(st, N("var", a), b.a[1]):
                        if b.a[3] and isground(b):
                            out += self.assume(s, v, True)
                        else:
                            ss = [s]
                            for x, y in pay:
                                ss = [q for s in ss for q in self.branch_bool(s, EQ(x, y), True)]
                            out += ss
                    return out
                if not b.a[3]:
                    return self.assume(st, N("var", a), ("not", frozenset([b.a[1]])))
                if len(pay) == 1 and not isground(b):
                    out = self.assume(st.copy(), N("var", a), ("not", frozenset([b.a[1]])))
                    for s in self.assume(st, N("var", a), b.a[1]):
                        out += self.branch_bool(s, EQ(*pay[0]), False)
                    return out
        if v.op == "eq" and (v.a[0].op == "disc" or v.a[1].op == "disc"):
            d, o = v.a if v.a[0].op == "disc" else (v.a[1], v.a[0])
            if o.op == "disc" and isagg(d.a[0]) and not isagg(o.a[0]):
                d, o = o, d
            nm = None
            if o.op == "k":
                nm = (self.P.enums.get(d.a[1]) or {}).get(o.a[0])
            elif o.op == "disc" and isagg(o.a[0]):
                nm = o.a[0].a[1]
            if nm is not None:
                if isagg(d.a[0]):
                    return [st] if (d.a[0].a[1] == nm) == want else []
                rest = set((self.P.enums.get(d.a[1]) or {}).values()) - {nm}
                return self.assume(st, N("var", d.a[0]), nm if want else rest.pop() if len(rest) == 1 else ("not", frozenset([nm])))
        cur = self.lookup(st, v)
        if cur is not None:
            return [st] if bool(cur) == want else []
        return self.assume(st, v, want)

    def fork_bool(self, st, v):
        """[(state, bool)]"""
        if v.op == "k":
            return [(st, bool(v.a[0]))]
        out = [(s, True) for s in self.branch_bool(st.copy(), v, True)]
        out += [(s, False) for s in self.branch_bool(st, v, False)]
        return out

    def variants(self, st, v, cands):
        """Split state by the variant of v. [(state, variant)]"""
        v = self.deref_val(st, v)
        if v.op == "agg" and v.a[1] is not None:
            return [(st, v.a[1])]
        out = []
        atom = N("var", v)
        cur = st.facts.get(atom)
        for c in cands:
            if cur is not None:
                if isinstance(cur, tuple):
                    if c in cur[1]:
                        continue
                elif cur != c:
                    continue
                else:
                    out.append((st, c))
                    continue
            for s in self.assume(st.copy(), atom, c):
                out.append((s, c))
        return out

    def opt(self, st, v):
        """Split an Option value: [(st, None or payload)]"""
        v = self.deref_val(st, v)
        out = []
        for s, c in self.variants(st, v, ("None", "Some")):
            out.append((s, None if c == "None" else self.proj(s, self.proj(s, v, ("v", "Some")), ("f", "0"))))
        return out

    def res(self, st, v):
        v = self.deref_val(st, v)
        out = []
        for s, c in self.variants(st, v, ("Ok", "Err")):
            out.append((s, c, self.proj(s, self.proj(s, v, ("v", c)), ("f", "0"))))
        return out

    # ---- merging
    def vshape(self, v, d=2):
        if v.op == "k":
            return v.a[0]
        if v.op == "moved":
            return "M"
        if v.op == "unit":
            return "U"
        if v.op == "agg":
            t = v.a[0] if isinstance(v.a[0], str) else v.a[0][1]
            if d == 0:
                return (t, v.a[1])
            return (t, v.a[1]) + tuple(self.vshape(x, d - 1) for x in v.a[3])
        if v.op == "fn":
            return v.a[0]
        if v.op == "list" and self.rule.unroll:
            return ("L", len(v.a[0]))
        return "T"

    def state_key(self, st, fid, fn):
        tr = tuple(sorted(((a.n, v if not isinstance(v, tuple) else tuple(sorted(v[1]))) for a, v in st.facts.items() if self.rule.track(a)), key=repr))
        f = st.fr.get(fid, {})
        sh = []
        for l in self.shape_locals(fn):
            v = f.get(l)
            if v is not None:
                if v.op == "k":
                    if fn["locals"][l][0] == "bool" or self.rule.unroll and isinstance(v.a[0], int) and 0 <= v.a[0] <= 16:
                        sh.append((l, v.a[0]))
                elif v.op == "moved":
                    sh.append((l, "M"))
                elif v.op == "agg":
                    if v.a[1] is not None or v.a[0] == "tuple" or v.a[0] == "arrayiter":
                        sh.append((l, self.vshape(v, 2 if v.a[0] == "tuple" else 1)))
        mv = tuple(sorted(x for x in st.moved if x[0] == fid))
        return (self.rule.key(st.ts), tr, tuple(sh), mv)

    def shape_locals(self, fn):
        r = fn.get("_shape")
        if r is None:
            r = set()
            for n, pl in fn["vars"]:
                if not pl[1]:
                    r.add(pl[0])
            # locals whose discriminant is read or that are switched on / dropped
            for b in fn["blocks"]:
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] == "disc" and not s[2][1][1]:
                        r.add(s[2][1][0])
                t = b["t"]
                if t["k"] == "drop" and t.get("nd") and not t["p"][1]:
                    r.add(t["p"][0])
                if t["k"] == "switch" and t["d"][0] != "k" and (not t["d"][1][1] or fn["locals"][t["d"][1][0]][0].startswith("(")):
                    r.add(t["d"][1][0])
            # results of short-circuit operators: assigned a constant on one branch
            nas, cst = {}, set()
            for b in fn["blocks"]:
                for s in b["s"]:
                    if s[0] == "=" and not s[1][1]:
                        nas[s[1][0]] = nas.get(s[1][0], 0) + 1
                        if s[2][0] == "use" and s[2][1][0] == "k" and s[2][1][1].get("ty") == "bool":
                            cst.add(s[1][0])
                if b["t"]["k"] == "call" and not b["t"]["d"][1]:
                    nas[b["t"]["d"][0]] = nas.get(b["t"]["d"][0], 0) + 1
            r |= {l for l in cst if nas[l] > 1}
            r.add(0)
            # where those values were copied from
            cp = [(s[1][0], s[2][1][1][0]) for b in fn["blocks"] for s in b["s"]
                  if s[0] == "=" and not s[1][1] and s[2][0] == "use" and s[2][1][0] != "k"]
            more = True
            while more:
                more = False
                for d, o in cp:
                    if d in r and o not in r and (fn["locals"][o][0] == "bool" or fn["locals"][o][0].startswith("(")):
                        r.add(o)
                        more = True
            r = sorted(r)
            fn["_shape"] = r
        return r

    def join_val(self, a, b, key, jc):
        if a is b:
            return a
        if a.op == "moved":
            return b
        if b.op == "moved":
            return a
        if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and a.a[2] == b.a[2]:
            vals = tuple(self.join_val(x, y, key + ".%d" % i, jc) for i, (x, y) in enumerate(zip(a.a[3], b.a[3])))
            return N("agg", a.a[0], a.a[1], a.a[2], vals)
        return jc.au(a, b, key)

    def join(self, s1, s2, blk, jc=None):
        """Join s2 into s1 (new object), returns (state, changed)."""
        ch = False
        jc = jc or Joiner(s1, s2)
        s2 = jc.s2
        out = State()
        out.ts = s1.ts
        out.hist = s1.hist
        for fid, f1 in s1.fr.items():
            f2 = s2.fr.get(fid, {})
            nf = {}
            for l, v in f1.items():
                w = f2.get(l)
                if w is None:
                    ch = True
                    continue
                if v is w:
                    nf[l] = v
                else:
                    j = self.join_val(v, w, "%s/%s/%s" % (fid, l, blk), jc)
                    if j is not v:
                        ch = True
                    nf[l] = j
            out.fr[fid] = nf
        for k, v in s1.heap.items():
            w = s2.heap.get(k)
            if w is v:
                out.heap[k] = v
            elif w is None:
                w = N("absent", k)
                j = jc.name("h%d/%s" % (k.n, blk), prov(v), v, w)
                if j is not v:
                    ch = True
                out.heap[k] = j
            else:
                j = self.join_val(v, w, "h%d/%s" % (k.n, blk), jc)
                if j is not v:
                    ch = True
                out.heap[k] = j
        for k, w in s2.heap.items():
            if k not in s1.heap:
                out.heap[k] = jc.name("h%d/%s" % (k.n, blk), prov(w), N("absent", k), w)
                ch = True
        rest = None
        for a, v in s1.facts.items():
            w = s2.facts.get(a)
            if w == v:
                out.facts[a] = v
                continue
            if jc.pairs:
                if rest is None:
                    rest = {}
                    for b, w in s2.facts.items():
                        if b not in s1.facts or s1.facts[b] != w:
                            rest.setdefault((b.op, len(b.a)), []).append((b, w))
                for b, w in rest.get((a.op, len(a.a)), ()):
                    if w == v:
                        n = jc.matched(a, b)
                        if n is not None:
                            out.facts[n] = v
                            if n is not a:
                                ch = True
                            break
                else:
                    ch = True
            else:
                ch = True
        m = s1.moved | s2.moved
        if m != s1.moved:
            ch = True
        out.moved = m
        out.intro = s1.intro | jc.new
        for n in jc.forced:
            for a in [a for a in out.facts if n in phis(a)]:
                del out.facts[a]
        return out, ch

    # ---- function execution
    def rpo(self, path):
        r = self._rpo.get(path)
        if r is not None:
            return r
        fn = self.P.fns[path]
        seen = set()
        order = []

        def succ(b):
            t = fn["blocks"][b]["t"]
            out = []
            if t["k"] == "switch":
                out = [x for _, x in t["v"]] + [t["o"]]
            else:
                for k in ("t", "u", "drop"):
                    if isinstance(t.get(k), int) and not isinstance(t.get(k), bool):
                        out.append(t[k])
            return out
        stack = [(0, iter(succ(0)))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    stack.append((x, iter(succ(x))))
                    break
            else:
                order.append(b)
                stack.pop()
        r = {b: i for i, b in enumerate(reversed(order))}
        self._rpo[path] = r
        return r

    def run(self, path, args=None, setup=None, subst=None):
        """Analyse function `path` as a root. Returns list of Exit."""
        fn = self.P.fns.get(path)
        if fn is None:
            raise EngineError("no such function: " + path)
        st = State()
        st.ts = self.rule.init()
        if args is None:
            args = []
            names = self.arg_names(fn)
            for i in range(fn["args"]):
                args.append(N("arg", names[i]))
        if setup:
            setup(self, st)
        exits = self.call(path, args, st, 0, "root", subst or {})
        # A root async fn is driven to completion.
        if fn.get("async"):
            out = []
            for e in exits:
                if e.kind == "ret" and isagg(e.val) and isinstance(e.val.a[0], tuple) and e.val.a[0][0] == "coroutine":
                    out += self.run_coroutine(e.val, e.st, 0, "rootpoll")
                else:
                    out.append(e)
            exits = out
        return exits

    def run_coroutine(self, co, st, fid, blk):
        cp = co.a[0][1]
        return self.call(cp, [co, UNIT], st, fid, blk, dict(co.a[0][2]))

    def arg_names(self, fn):
        names = ["a%d" % i for i in range(1, fn["args"] + 1)]
        for n, pl in fn["vars"]:
            if not pl[1] and 1 <= pl[0] <= fn["args"]:
                names[pl[0] - 1] = n
        return names

    def call(self, path, args, st, parent, blk, subst):
        fn = self.P.fns[path]
        fid = self.fid(parent, blk, path)
        if fid in st.fr:
            raise EngineError("frame reentered: " + path)
        self.visited_fns.add(path)
        fr = {0: N("uninit", fid, "0")}
        st.fr[fid] = fr
        n = fn["args"]
        if fn["kind"] == "closure" and n == 2 and len(args) > 2:
            pass
        for i in range(n):
            fr[i + 1] = args[i] if i < len(args) else N("arg?", path, str(i))
        self.stack.append(path)
        try:
            exits = self.body(path, fn, fid, st, subst)
        finally:
            self.stack.pop()
        # merge exits
        m = {}
        order = []
        for e in exits:
            e.st.fr.pop(fid, None)
            tr = tuple(sorted(((a.n, v if not isinstance(v, tuple) else tuple(sorted(v[1]))) for a, v in e.st.facts.items() if self.rule.track(a)), key=repr))
            k = (e.kind, self.rule.key(e.st.ts), tr, self.vshape(e.val, 3) if e.val is not None else None)
            if e.st.moved:
                e.st.moved = frozenset(x for x in e.st.moved if x[0] != fid)
            if k in m:
                o = m[k]
                jc = Joiner(o.st, e.st, e.val)
                jc.v1 = o.val
                if e.val is not None:
                    o.val = self.join_val(o.val, jc.val2(e.val), "ret%d/%s" % (fid, e.kind), jc)
                o.st, _ = self.join(o.st, e.st, "ret%d" % fid, jc)
            else:
                m[k] = e
                order.append(e)
        return order

    def body(self, path, fn, fid, st, subst):
        rpo = self.rpo(path)
        blocks = fn["blocks"]
        states = {}   # blk -> key -> state
        work = []
        inq = set()
        exits = []
        cnt = [0]
        dead = liveness(fn)

        def push(b, s):
            f = s.fr.get(fid)
            if f is not None and dead[b]:
                for l in [l for l in f if l in dead[b]]:
                    del f[l]
                if s.moved:
                    s.moved = frozenset(x for x in s.moved if x[0] != fid or x[1] not in dead[b])
            k = self.state_key(s, fid, fn)
            d = states.setdefault(b, {})
            if k not in d and len(d) >= self.rule.max_states:
                k = (k[0], k[1], "*", ())
                if k not in d and len(d) >= 2 * self.rule.max_states:
                    k = (k[0], "*", "*", ())
            if k in d:
                j, ch = self.join(d[k], s, b)
                if not ch:
                    return
                d[k] = j
            else:
                s.intro = frozenset()
                d[k] = s
            if (b, k) not in inq:
                inq.add((b, k))
                cnt[0] += 1
                heapq.heappush(work, (rpo.get(b, 0), cnt[0], b, k))
        push(0, st)
        while work:
            _, _, b, k = heapq.heappop(work)
            inq.discard((b, k))
            s0 = states[b].get(k)
            if s0 is None:
                continue
            self.steps += 1
            if self.steps > self.max_steps:
                raise EngineError("step budget exceeded in " + path)
            self.block(path, fn, fid, b, s0.copy(), subst, push, exits)
        return exits

    def block(self, path, fn, fid, b, st, subst, push, exits):
        blk = fn["blocks"][b]
        states = [st]
        for s in blk["s"]:
            if s[0] == "=":
                nxt = []
                for q in states:
                    v = self.rvalue(q, fid, s[2], subst)
                    nxt += self.assign(q, fn, path, fid, b, s[1], v, s[3])
                states = nxt
            elif s[0] == "sd":
                for q in states:
                    ad = self.addr(q, fid, s[1])
                    self.store(q, ad, N("opaque", "setdisc"))
        for q in states:
            self.terminator(path, fn, fid, b, q, subst, push, exits)

    def assign(self, st, fn, path, fid, b, place, v, ln):
        if place[1]:
            ad = self.addr(st, fid, place)
            if self.rule.wants_store:
                root, projs = ad
                base = name = None
                if projs and projs[-1][0] == "f":
                    base, name = self.load(st, (root, projs[:-1])), projs[-1][1]
                elif not projs and root[0] == "t" and root[1].op == "fld":
                    base, name = root[1].a
                elif not projs and root[0] == "t" and root[1].op in ("item", "idx"):
                    base, name = root[1], "*"
                if name is not None:
                    ev = Ev(kind="store", name=name, args=(base, v, self.load(st, ad)), fid=fid, fn=path, blk=b, ln=ln,
                            site=self.site(fid, b))
                    r = self.rule.on(self, st, ev)
                    if r is not None:
                        for q in r:
                            self.store(q, self.addr(q, fid, place), v)
                        return r
            self.store(st, ad, v)
        else:
            st.fr[fid][place[0]] = v
            if st.moved:
                st.moved = st.moved - {(fid, place[0])}
        return [st]

    def emit(self, st, ev):
        r = self.rule.on(self, st, ev)
        return [st] if r is None else r

    def terminator(self, path, fn, fid, b, st, subst, push, exits):
        t = fn["blocks"][b]["t"]
        k = t["k"]
        if k == "goto":
            push(t["t"], st)
        elif k == "ret":
            exits.append(Exit("ret", st, st.fr[fid].get(0, UNIT)))
        elif k == "switch":
            self.switch(fn, fid, st, t, push, subst)
        elif k == "drop":
            for s in self.do_drop(path, fn, fid, b, st, t["p"], t, subst, exits):
                push(t["t"], s)
        elif k == "call":
            self.do_call(path, fn, fid, b, st, t, subst, push, exits)
        elif k == "assert":
            v = self.operand(st, fid, t["d"], subst)
            for s in self.branch_bool(st, v, bool(t["e"])):
                push(t["t"], s)
        elif k == "yield":
            ev = Ev(kind="yield", name="yield", args=(), fid=fid, fn=path, blk=b, ln=t["ln"], site=self.site(fid, b))
            for s in self.emit(st, ev):
                if self.rule.cancel and t.get("drop") is not None:
                    c = s.copy()
                    ev2 = Ev(kind="cancel", name="cancel", args=(), fid=fid, fn=path, blk=b, ln=t["ln"], site=self.site(fid, b))
                    for c2 in self.emit(c, ev2):
                        c2.note("cancelled at %s:%s" % (fn["span"][0], t["ln"]))
                        push(t["drop"], c2)
                s.fr[fid][t["ra"][0]] = UNIT
                push(t["t"], s)
        elif k == "codrop":
            exits.append(Exit("cancel", st, None))
        elif k == "resume":
            exits.append(Exit("unwind", st, None))
        # unreachable / abort: path ends

    def switch(self, fn, fid, st, t, push, subst):
        v = self.operand(st, fid, t["d"], subst)
        tv = t["v"]
        if v.op == "not" or v.op in ("le", "eq") or t["dty"] == "bool":
            if v.op == "disc":
                pass
            else:
                tgt = {int(x): y for x, y in tv}
                fb = tgt.get(0)
                for s, bo in self.fork_bool(st, v):
                    if bo:
                        push(tgt.get(1, t["o"]), s)
                    else:
                        push(fb if fb is not None else t["o"], s)
                return
        if v.op == "k":
            for x, y in tv:
                if int(x) == v.a[0] or (v.a[0] < 0 and int(x) == v.a[0] % 256):
                    push(y, st)
                    return
            push(t["o"], st)
            return
        if v.op == "disc":
            base, adt = v.a
            names = self.P.enums.get(adt)
            if base.op == "agg" and base.a[1] is not None:
                for x, y in tv:
                    if names and names.get(int(x)) == base.a[1]:
                        push(y, st)
                        return
                push(t["o"], st)
                return
            if base.op == "k" and names:
                for x, y in tv:
                    if int(x) == base.a[0]:
                        push(y, st)
                        return
                push(t["o"], st)
                return
            if names is None:
                names = {}
            atom = N("var", base)
            used = set()
            for x, y in tv:
                nm = names.get(int(x), "v%d" % int(x))
                used.add(nm)
                for s in self.assume(st.copy(), atom, nm):
                    push(y, s)
            if fn["blocks"][t["o"]]["t"]["k"] != "unreachable":
                rest = set(names.values()) - used
                if names and not rest:
                    return
                if len(rest) == 1:
                    for s in self.assume(st, atom, list(rest)[0]):
                        push(t["o"], s)
                else:
                    for s in self.assume(st, atom, ("not", frozenset(used))):
                        push(t["o"], s)
            return
        atom = N("int", v)
        used = set()
        for x, y in tv:
            used.add(int(x))
            for s in self.assume(st.copy(), atom, int(x)):
                push(y, s)
        if fn["blocks"][t["o"]]["t"]["k"] != "unreachable":
            for s in self.assume(st, atom, ("not", frozenset(used))):
                push(t["o"], s)

    # ---- drops
    def do_drop(self, path, fn, fid, b, st, place, t, subst, exits):
        if not t.get("nd", True):
            return [st]
        if not place[1] and (fid, place[0]) in st.moved:
            return [st]
        ad = self.addr(st, fid, place)
        v = self.load(st, ad)
        out = self.drop_value(path, fid, b, st, v, ad, t.get("ty", ""), t.get("h"), t["ln"], subst, exits)
        for s in out:
            root, projs = ad
            if root[0] == "c" and not projs and root[1] in s.fr:
                s.fr[root[1]][root[2]] = MOVED
        return out

    def drop_value(self, path, fid, b, st, v, ad, ty, head, ln, subst, exits, depth=0):
        if v.op in ("moved", "k", "unit", "uninit", "ref", "const", "fn"):
            return [st]
        if depth > 6:
            return [st]
        states = [st]
        if v.op == "agg":
            tag = v.a[0]
            d = self.P.drops.get(tag) if isinstance(tag, str) else None
            if d and d in self.P.fns and self.rule.inline(d) and d not in self.stack:
                nxt = []
                for s in states:
                    ref = self.mkref(ad)
                    for e in self.call(d, [ref], s, fid, "%sdrop%d" % (b, depth), subst):
                        if e.kind == "ret":
                            nxt.append(e.st)
                        elif e.kind == "unwind":
                            exits.append(e)
                states = nxt
            elif isinstance(tag, str):
                states = self._drop_ev(states, path, fid, b, v, tag, ln)
            nxt = []
            for s in states:
                cur = [s]
                vv = self.load(s, ad)
                if isagg(vv):
                    for n, x in zip(vv.a[2], vv.a[3]):
                        if x.op in ("moved", "k", "unit"):
                            continue
                        sub = (ad[0], ad[1] + (("f", n),))
                        cc = []
                        for c in cur:
                            cc += self.drop_value(path, fid, b, c, x, sub, self.tty.get(x, ""), None, ln, subst, exits, depth + 1)
                        cur = cc
                nxt += cur
            return nxt
        # a term
        t2 = self.tty.get(v, ty) if v.op == "call" else ty
        d = self.P.drops.get(head) if head else None
        if d is None and t2:
            h = re.sub(r"<.*$", "", t2)
            d = self.P.drops.get(h)
        if d and d in self.P.fns and self.rule.inline(d) and d not in self.stack:
            nxt = []
            for e in self.call(d, [v], st, fid, "%sdrop%d" % (b, depth), subst):
                if e.kind == "ret":
                    nxt.append(e.st)
            return nxt
        return self._drop_ev(states, path, fid, b, v, t2, ln)

    def _drop_ev(self, states, path, fid, b, v, ty, ln):
        out = []
        for s in states:
            # variant known to be empty
            if ty.startswith("std::option::Option") and s.facts.get(N("var", v)) == "None":
                out.append(s)
                continue
            out += self.emit(s, Ev(kind="drop", name=ty, args=(v,), fid=fid, fn=path, blk=b, ln=ln, ty=ty,
                                   site=self.site(fid, b)))
        return out

    # ---- calls
    def do_call(self, path, fn, fid, b, st, t, subst, push, exits):
        self.visited_calls += 1
        f = t["f"]
        aty = []
        for o in t["a"]:
            if o[0] == "k":
                aty.append(o[1].get("ty", ""))
            else:
                aty.append(fn["locals"][o[1][0]][0] if not o[1][1] else "")
        args = [self.operand(st, fid, o, subst) for o in t["a"]]
        site = self.site(fid, b)
        if f[0] == "k" and "fn" in f[1]:
            fv = self.operand(st, fid, f, subst)
        else:
            fv = self.operand(st, fid, f, subst)
        results = self.invoke(path, fn, fid, b, st, fv, args, aty, t["ln"], subst, site, t.get("dt", ""))
        for e in results:
            if e.kind == "ret":
                if t["t"] is None:
                    continue
                self.assign(e.st, fn, path, fid, b, t["d"], e.val, t["ln"])
                push(t["t"], e.st)
            elif e.kind == "unwind":
                if t.get("u") is not None:
                    push(t["u"], e.st)
                else:
                    exits.append(e)
            elif e.kind == "cancel":
                y = self.yield_after(fn, t["t"])
                if y is not None:
                    d = fn["blocks"][y]["t"].get("drop")
                    if d is not None:
                        push(d, e.st)
                        continue
                exits.append(e)
            else:
                exits.append(e)

    def yield_after(self, fn, start):
        seen = set()
        q = deque([start])
        while q:
            x = q.popleft()
            if x is None or x in seen:
                continue
            seen.add(x)
            t = fn["blocks"][x]["t"]
            if t["k"] == "yield":
                return x
            if t["k"] == "switch":
                q.extend([y for _, y in t["v"]] + [t["o"]])
            elif t["k"] in ("goto", "drop", "call", "assert"):
                q.append(t.get("t"))
        return None

    def invoke(self, path, fn, fid, b, st, fv, args, aty, ln, subst, site, dty):
        """Call value fv with args. Returns list of Exit (ret/unwind/cancel)."""
        fv = self.deref_val(st, fv)
        if fv.op == "fn":
            name, ga, trait = fv.a
            name = self.resolve(name, ga, trait, st, args)
        else:
            name, ga, trait = "<indirect>", (), ""
        ev = Ev(kind="call", name=name, args=args, fid=fid, fn=path, blk=b, ln=ln, site=site,
                dty=dty, ga=ga)
        ev.vals = lambda s, i: self.deref_val(s, args[i])
        out = []
        for s in self.emit(st, ev):
            if self.rule.unwinds(self, ev):
                u = s.copy()
                u.note("panic at %s:%s" % (fn["span"][0] if fn else "?", ln))
                out.append(Exit("unwind", u, None))
            out += self.invoke2(path, fn, fid, b, s, fv, name, ga, args, aty, ln, subst, site, dty, ev)
        return out

    def resolve(self, name, ga, trait, st, args):
        if trait and name not in self.P.fns:
            m = name.rsplit("::", 1)[1]
            im = self.P.trait_impls.get((trait, m))
            if im and ga:
                h = ga[0]
                if h in im:
                    return im[h]
                h2 = re.sub(r"<.*$", "", h)
                if h2 in im:
                    return im[h2]
                if args:
                    v = self.deref_val(st, args[0])
                    if v.op == "agg" and isinstance(v.a[0], str) and v.a[0] in im:
                        return im[v.a[0]]
                if trait.startswith(("common::", "cht::", "sync::", "future::")) and len(im) == 1:
                    return list(im.values())[0]
        return name

    def invoke2(self, path, fn, fid, b, st, fv, name, ga, args, aty, ln, subst, site, dty, ev):
        r = self.rule.model(self, st, ev)
        if r is None:
            for m in self.models:
                r = m(self, st, ev)
                if r is not None:
                    break
        if r is None:
            r = self.builtin(path, fn, fid, b, st, fv, name, ga, args, aty, ln, subst, site, dty, ev)
        if r is not None:
            return [x if isinstance(x, Exit) else Exit("ret", x[0], x[1]) for x in r]
        if name in self.P.fns and self.P.fns[name]["blocks"] and self.rule.inline(name) \
                and self.stack.count(name) < 1 and len(self.stack) < 40:
            sub = self.callee_subst(name, ga)
            return self.call(name, args, st, fid, b, sub)
        return [Exit("ret", *self.opaque(st, name, args, aty, site, dty))]

    def callee_subst(self, name, ga):
        gen = [g for g in self.P.fns[name].get("gen", ()) if not g.startswith("'")]
        return dict(zip(gen, ga))

    def opaque(self, st, name, args, aty, site, dty, pure=False):
        vals = tuple(self.deref_val(st, a) for a in args)
        if pure or PURE.search(name):
            if PURE.search(name) or pure:
                v = N("pure", name, vals)
                self.tty[v] = dty
                return st, v
        v = N("call", name, vals, site)
        # the same site again: an older value with the same name is a different value
        self.kill_facts(st, v)
        if dty:
            self.tty[v] = dty
        for i, a in enumerate(args):
            ty = aty[i] if i < len(aty) else ""
            if ty.startswith("&mut") or ty.startswith("std::pin::Pin<&mut") or "&'" in ty and "mut " in ty[:12]:
                if a.op == "ref":
                    o = N("out", name, site, i)
                    self.kill_facts(st, o)
                    self.store(st, self.ref_addr(a), o)
                else:
                    for k in [k for k in st.heap if a in subs(k)]:
                        del st.heap[k]
                    self.kill_facts(st, a)
        return st, v

    def call_value(self, st, f, args, fid, b, ln, tag="", path=None, fn=None, dty=""):
        """Invoke a closure / fn item / unknown callable value. -> [(st, val)] (+Exit)."""
        f0 = f
        f = self.deref_val(st, f)
        while isagg(f) and isinstance(f.a[0], str) and f.a[0].endswith("AssertUnwindSafe"):
            f0 = f.a[3][0]
            f = self.deref_val(st, f0)
        if isagg(f) and isinstance(f.a[0], tuple) and f.a[0][0] in ("closure",):
            cp = f.a[0][1]
            cf = self.P.fns.get(cp)
            if cf is None or self.stack.count(cp) >= 1:
                return [Exit("ret", st, N("call", cp, tuple(self.deref_val(st, a) for a in args), self.site(fid, b)))]
            ev = Ev(kind="call", name=cp, args=[f] + list(args), fid=fid, fn=path, blk=b, ln=ln, site=self.site(fid, str(b) + tag), ga=())
            outs = []
            for s in self.emit(st, ev):
                m = self.rule.model(self, s, ev)
                if m is not None:
                    outs += [x if isinstance(x, Exit) else Exit("ret", x[0], x[1]) for x in m]
                    continue
                if not self.rule.inline(cp):
                    outs.append(Exit("ret", s, N("call", cp, tuple(self.deref_val(s, a) for a in args), self.site(fid, b))))
                    continue
                self_ty = cf["locals"][1][0]
                if self_ty.startswith("&"):
                    if f0.op == "ref":
                        selfv = f0
                        # collapse && chains
                        inner = self.load(s, self.ref_addr(f0))
                        n = 5
                        while inner.op == "ref" and n:
                            selfv = inner
                            inner = self.load(s, self.ref_addr(inner))
                            n -= 1
                        f_final = inner
                    else:
                        loc = "tmp%s%s" % (b, tag)
                        s.fr.setdefault(fid, {})[loc] = f
                        selfv = N("ref", "c", fid, loc, ())
                else:
                    selfv = f
                outs += self.call(cp, [selfv] + list(args), s, fid, "%s%s" % (b, tag), dict(f.a[0][2]))
            return outs
        if f.op == "fn":
            return self.invoke(path, fn, fid, b, st, f, list(args), [""] * len(args), ln, {}, self.site(fid, str(b) + tag), dty)
        # unknown (user) callable
        ev = Ev(kind="user", name="<user>", args=[f] + list(args), fid=fid, fn=path, blk=b, ln=ln, site=self.site(fid, str(b) + tag), ga=(), dty=dty)
        out = []
        for s in self.emit(st, ev):
            if self.rule.unwinds(self, ev):
                u = s.copy()
                u.note("user code panics at line %s" % ln)
                out.append(Exit("unwind", u, None))
            m = self.rule.model(self, s, ev)
            if m is not None:
                out += [x if isinstance(x, Exit) else Exit("ret", x[0], x[1]) for x in m]
                continue
            v = N("call", "<user>", (f,) + tuple(self.deref_val(s, a) for a in args), self.site(fid, str(b) + tag))
            self.kill_facts(s, v)
            if dty:
                self.tty[v] = dty
            out.append(Exit("ret", s, v))
        return out

    from builtins_ import builtin  # noqa
