"""C22: the queues and the timer wheel are what their operations make of them.

Local shape analysis: a list is its header (head, tail, len, cursor) and the cells next to the node an
operation works on; the rest of the list is a frame that no operation may read or write. Each operation
is analysed for every way the node, its neighbours, the two ends and the cursor can coincide, so the
result holds for lists of any length.
"""
import re
import itertools
import absint as A
import lib
from absint import N, K, NONE, SOME, UNIT, isagg, field, subs
from checks_reads import short
from moka_models import method

SELF = N("arg", "self")
DQ = "common::deque::Deque::<T>::"
NEXT = "<&'a mut common::deque::Deque<T> as std::iter::Iterator>::next"
CUR = "common::deque::DeqCursor"


def node(n):
    return N("node", n)


def isnode(v):
    return v.op == "node"


class ShapeRule(lib.BaseRule):
    """Pointers are nodes; every node has a name of its own."""
    cap = 200
    indexed = True

    def __init__(self, inl=("common::deque::",)):
        self.inl = inl
        self.panics = []
        self.events = ()

    def inline(self, p):
        q = lib.modpath(p)
        return q.startswith(self.inl) or any(p.endswith(x) for x in self.inl)

    def model(self, eng, st, ev):
        n = ev.name or ""
        m = method(n)
        if ev.kind != "call":
            return None
        if re.search(r"NonNull(::)?<.*>(>)?::", n) or "NonNull<" in n:
            if m == "new":
                return [(st, SOME(eng.deref_val(st, ev.args[0])))]
            if m in ("as_ref", "as_ptr", "as_mut", "new_unchecked", "cast", "clone", "from", "read", "into"):
                return [(st, eng.deref_val(st, ev.args[0]))]
            if m in ("eq", "ne"):
                r = A.EQ(eng.deref_val(st, ev.args[0]), eng.deref_val(st, ev.args[1]))
                return [(st, r if m == "eq" else A.NOT(r))]
        if re.search(r"(^|::)Box(::)?<.*>::(into_raw|from_raw|leak|into_non_null|from_non_null|new|as_mut_ptr|as_ptr|into_inner)$", n):
            return [(st, eng.deref_val(st, ev.args[0]))]
        if re.search(r"std::ptr::(eq|addr_eq)(::<.*>)?$", n):
            return [(st, A.EQ(eng.deref_val(st, ev.args[0]), eng.deref_val(st, ev.args[1])))]
        if re.search(r"mem::(drop|forget)(::<.*>)?$", n):
            v = eng.deref_val(st, ev.args[0])
            if isnode(v):
                st.ts = st.ts + ((m, v),)
            return [(st, UNIT)]
        return self.more(eng, st, ev, n, m)

    def more(self, eng, st, ev, n, m):
        return None

    def on(self, eng, st, ev):
        if ev.kind == "panic":
            self.panics.append((ev.loc(eng), [(A.pp(a, -4), v) for a, v in st.facts.items()]))
        return None

    def fact(self, eng, st, atom, val):
        if atom.op == "eq" and isnode(atom.a[0]) and isnode(atom.a[1]) and val is True:
            return []
        return None


class ShapeEngine(A.Engine):
    """A term naming a cell that was laid out stands for the cell's address, never for a value."""

    def deref_val(self, st, v, n=6):
        v = A.Engine.deref_val(self, st, v, n)
        while v.op == "fld" and v in st.heap and st.heap[v] is not v:
            v = A.Engine.deref_val(self, st, st.heap[v], n)
        return v


X, Pn, Nn, H, T, C, R = (node(x) for x in ("x", "prev", "next", "front", "back", "cur", "aftercur"))
LEN = N("arg", "len")


def cursor(v):
    if v is None:
        return NONE
    if v == "done":
        return SOME(A.AGG(CUR, "Done", (), ()))
    return SOME(A.AGG(CUR, "Node", ("0",), (v,)))


class Heap(dict):
    def __init__(self, head, tail, cur, links):
        def opt(v):
            return NONE if v is None else SOME(v)
        self[(SELF, "head")] = opt(head)
        self[(SELF, "tail")] = opt(tail)
        self[(SELF, "cursor")] = cursor(cur)
        self[(SELF, "len")] = LEN
        for (n, f), v in links.items():
            self[(n, f)] = opt(v)


def nextof(links, n):
    return links.get((n, "next"), "unknown")


def shapes(linked=True):
    """Every way the node x lies in a list, with its neighbours and the cursor."""
    for p, n in itertools.product(("first", "second", "later"), ("last", "butlast", "earlier")):
        links = {}
        head = tail = X
        if p != "first":
            links[(X, "prev")], links[(Pn, "next")] = Pn, X
            head = Pn if p == "second" else H
            if p == "second":
                links[(Pn, "prev")] = None
            else:
                links[(H, "prev")] = None
        else:
            links[(X, "prev")] = None
        if n != "last":
            links[(X, "next")], links[(Nn, "prev")] = Nn, X
            tail = Nn if n == "butlast" else T
            if n == "butlast":
                links[(Nn, "next")] = None
            else:
                links[(T, "next")] = None
        else:
            links[(X, "next")] = None
        curs = [None, "done", X, C]
        if p != "first":
            curs.append(Pn)
        if n != "last":
            curs.append(Nn)
        for c in curs:
            yield head, tail, c, links, "%s/%s/%s" % (p, n, "elsewhere" if c is C else "none" if c is None else c if c == "done" else c.a[0])


def run(P, path, heap, args, rule=None):
    r = rule or ShapeRule()
    eng = ShapeEngine(P, r, [])

    def setup(e, st):
        for (n, f), v in heap.items():
            st.heap[N("fld", n, f)] = v
    ex = eng.run(path, args=args, setup=setup)
    return eng, r, ex


def norm(v):
    """a ± constant, however it is written"""
    if v.op == "op" and v.a[0] in ("Add", "Sub") and len(v.a) == 3:
        a, b = v.a[1], v.a[2]
        if a.op == "k" and v.a[0] == "Add":
            a, b = b, a
        if b.op == "k":
            x, k = norm(a)
            return x, k + (b.a[0] if v.a[0] == "Add" else -b.a[0])
    return v, 0


def same(f, got, want):
    if f == "len":
        return norm(got) == norm(want)
    return got is want


def compare(res, key, eng, st, heap, want, where, case):
    """The heap after the operation is `want`, cell by cell, and nothing else was written."""
    ok = True
    exp = dict(heap)
    exp.update(want)
    for (n, f), w in exp.items():
        t = N("fld", n, f)
        got = st.heap.get(t, t)
        if not same(f, got, w):
            ok = False
            res.bad("%s:%s" % (key, f), "%s, node %s: %s of %s becomes %s, not %s" % (key, case, f, A.pp(n), A.pp(got, -4), A.pp(w, -4)), where)
    for t in st.heap:
        if t.op == "fld" and t.a[1] in ("next", "prev", "head", "tail", "len", "cursor", "element", "region") and (t.a[0], t.a[1]) not in exp and st.heap[t] is not t:
            ok = False
            res.bad("%s:frame" % key, "%s, node %s: writes %s, which it must not touch" % (key, case, A.pp(t)), where)
    return ok


def there(P, res, path, n):
    """The operation exists in the form it is judged in; if not, that is said, not guessed at."""
    f = P.fns.get(path)
    if f is None or f["args"] != n:
        x = "not analysed: %s does not exist or takes other arguments" % path
        if x not in res.notes:
            res.notes.append(x)
        return False
    return True


def judge(P, res, path, key, heap, args, want, val, case, free=()):
    if not there(P, res, path, len(args)):
        return True
    eng, r, ex = run(P, path, heap, args)
    where = "%s:%s" % (P.fns[path]["span"][0], P.fns[path]["span"][1])
    ok = not r.panics
    res.obligations += 1
    if r.panics:
        res.bad("%s:panic" % key, "%s, node %s: can panic (%s)" % (key, case, r.panics[0][0]), where)
    if not ex:
        ok = False
        res.bad("%s:noexit" % key, "%s, node %s: never returns" % (key, case), where)
    for e in ex:
        if e.kind != "ret":
            ok = False
            res.bad("%s:unwind" % key, "%s, node %s: unwinds" % (key, case), where)
            continue
        ok &= compare(res, key, eng, e.st, heap, want, where, case)
        got = eng.deref_val(e.st, e.val) if e.val is not None else UNIT
        if isagg(got, A.OPT, "Some"):
            got = SOME(eng.deref_val(e.st, got.a[3][0]))
        if val is not Ellipsis and got is not val:
            if val.op == "k" and not eng.branch_bool(e.st.copy(), got, not val.a[0]):
                continue
            ok = False
            res.bad("%s:value" % key, "%s, node %s: returns %s, not %s" % (key, case, A.pp(got, -4), A.pp(val, -4)), where)
        if tuple(e.st.ts) != free:
            ok = False
            res.bad("%s:free" % key, "%s, node %s: gives the node's memory back %d times, not %d" % (key, case, len(e.st.ts), len(free)), where)
    if ok:
        res.discharged += 1
    res.fns |= eng.visited_fns
    return ok


def moved(c, links, x=X):
    """the cursor after x left its place"""
    if c is x:
        nx = links[(x, "next")]
        return cursor(nx if nx is not None else "done")
    return cursor(c)


def ends(links):
    return {(n, f): (NONE if v is None else SOME(v)) for (n, f), v in links.items()}


def gone(links, head, tail):
    """what taking x out of its place changes"""
    w = {}
    p, n = links[(X, "prev")], links[(X, "next")]
    if p is not None:
        w[(Pn, "next")] = NONE if n is None else SOME(n)
    else:
        w[(SELF, "head")] = NONE if n is None else SOME(n)
    if n is not None:
        w[(Nn, "prev")] = NONE if p is None else SOME(p)
    else:
        w[(SELF, "tail")] = NONE if p is None else SOME(p)
    return w


def lists(P, res):
    k = 0
    for head, tail, c, links, case in shapes():
        heap = Heap(head, tail, c, links)
        out = gone(links, head, tail)
        out[(X, "prev")] = out[(X, "next")] = NONE
        out[(SELF, "len")] = N("op", "Sub", LEN, K(1))
        out[(SELF, "cursor")] = moved(c, links)
        judge(P, res, DQ + "unlink", "unlink", heap, [SELF, X], out, UNIT, case)
        judge(P, res, DQ + "unlink_and_drop", "unlink_and_drop", heap, [SELF, X], out, UNIT, case, free=(("drop", X),))
        if head is X:
            judge(P, res, DQ + "pop_front", "pop_front", heap, [SELF], out, SOME(X), case)
        if links[(X, "next")] is None:
            back = {}
        else:
            back = gone(links, head, tail)
            back[(X, "prev")], back[(X, "next")] = SOME(tail), NONE
            back[(tail, "next")] = SOME(X)
            back[(SELF, "tail")] = SOME(X)
            back[(SELF, "cursor")] = moved(c, links)
        judge(P, res, DQ + "move_to_back", "move_to_back", heap, [SELF, X], back, UNIT, case)
        if head is X:
            judge(P, res, DQ + "move_front_to_back", "move_front_to_back", heap, [SELF], back, UNIT, case)
            judge(P, res, DQ + "peek_front", "peek_front", heap, [SELF], {}, SOME(X), case)
            judge(P, res, DQ + "peek_front_ptr", "peek_front_ptr", heap, [SELF], {}, SOME(X), case)
        if tail is X:
            judge(P, res, DQ + "peek_back", "peek_back", heap, [SELF], {}, SOME(X), case)
        judge(P, res, DQ + "contains", "contains", heap, [SELF, X], {}, K(1), case)
        judge(P, res, "common::deque::DeqNode::<T>::next_node_ptr", "next_node_ptr", heap, [X], {}, NONE if links[(X, "next")] is None else SOME(links[(X, "next")]), case)
        judge(P, res, DQ + "len", "len", heap, [SELF], {}, LEN, case)
        judge(P, res, DQ + "reset_cursor", "reset_cursor", heap, [SELF], {(SELF, "cursor"): NONE}, UNIT, case)
        judge(P, res, DQ + "has_next", "has_next", heap, [SELF], {}, K(c != "done"), case)
        if c is X or c is None and head is X:
            nx = links[(X, "next")]
            judge(P, res, NEXT, "next", heap, [SELF], {(SELF, "cursor"): cursor(nx if nx is not None else "done")}, SOME(N("fld", X, "element")), case)
        elif c == "done":
            judge(P, res, NEXT, "next", heap, [SELF], {(SELF, "cursor"): NONE}, NONE, case)
        k += 1
    free = {(X, "prev"): N("arg", "oldprev"), (X, "next"): N("arg", "oldnext")}
    # appending, and everything on an empty list
    for tail, c in itertools.product((None, T), (None, "done", T, C)):
        if tail is None and c in (T, C):
            continue
        links = {(T, "next"): None} if tail is not None else {}
        for head in ((None,) if tail is None else (T, H)):
            heap = Heap(head, tail, c, links)
            case = "%s/%s" % ("empty" if head is None else "one" if head is T else "more", c if not isinstance(c, A.Node) else c.a[0])
            w = {(X, "next"): NONE, (X, "prev"): NONE if tail is None else SOME(tail), (SELF, "tail"): SOME(X), (SELF, "len"): N("op", "Add", LEN, K(1))}
            if tail is None:
                w[(SELF, "head")] = SOME(X)
            else:
                w[(T, "next")] = SOME(X)
            h2 = Heap(head, tail, c, links)
            h2.update(free)
            judge(P, res, DQ + "push_back", "push_back", h2, [SELF, X], w, X, case)
            # a node that was taken out is in no list
            h3 = Heap(head, tail, c, links)
            h3[(X, "prev")] = h3[(X, "next")] = NONE
            judge(P, res, DQ + "contains", "contains", h3, [SELF, X], {}, K(0), case + "/out")
            if head is None:
                for f in ("pop_front", "peek_front", "peek_front_ptr", "peek_back"):
                    judge(P, res, DQ + f, f, heap, [SELF], {}, NONE, case)
                judge(P, res, DQ + "move_front_to_back", "move_front_to_back", heap, [SELF], {}, UNIT, case)
                judge(P, res, DQ + "has_next", "has_next", heap, [SELF], {}, K(0), case)
                judge(P, res, NEXT, "next", heap, [SELF], {(SELF, "cursor"): NONE}, NONE, case)
            k += 1
    res.floor("list shapes", k, 40)
    # a new list is empty, a new node is in none
    eng = A.Engine(P, ShapeRule(), [])
    for e in eng.run(DQ + "new") if there(P, res, DQ + "new", 1) else ():
        v = eng.deref_val(e.st, e.val)
        res.ob(field(v, "head") is NONE and field(v, "tail") is NONE and field(v, "cursor") is NONE and field(v, "len") is K(0) and field(v, "region") is N("arg", "region"), "new", "a new list is not empty", DQ + "new")
    eng = A.Engine(P, ShapeRule(), [])
    for e in eng.run("common::deque::DeqNode::<T>::new") if there(P, res, "common::deque::DeqNode::<T>::new", 1) else ():
        v = eng.deref_val(e.st, e.val)
        res.ob(field(v, "next") is NONE and field(v, "prev") is NONE and field(v, "element") is N("arg", "element"), "newnode", "a new node is linked or carries something else", DQ + "new")


# ---------------------------------------------------------------- which queue

DQS = "common::concurrent::deques::Deques::<K>::"
REG = "common::CacheRegion"
DEQFN = re.compile(r"^<?(&'a mut )?common::deque::Deque(::)?<.*>(::| as )")


class QueueRule(ShapeRule):
    """Events: what is done to which queue. ts = events so far."""

    def __init__(self, inl=(), region=None, isin=True):
        ShapeRule.__init__(self)
        self.region = region or {}
        self.isin = isin

    def inline(self, p):
        return lib.modpath(p).startswith(("common::concurrent", "common::CacheRegion", "common::deque::DeqNode", "common::timer_wheel", "common::")) and \
            (not DEQFN.match(p) or p.endswith("::unlink_and_drop")) and not lib.modpath(p).startswith("common::time::")

    def more(self, eng, st, ev, n, m):
        if DEQFN.match(n) and n.split("::")[-1] in ("push_back", "contains", "move_to_back", "unlink", "region", "pop_front", "peek_front", "peek_back", "move_front_to_back", "len", "peek_front_ptr"):
            a = [eng.deref_val(st, x) for x in ev.args]
            q = a[0]
            if m == "region":
                return [(st, self.region.get(q, N("region", q)))]
            if m == "contains":
                return [(st, K(self.isin))] if isinstance(self.isin, bool) else None
            if m == "push_back":
                st.ts = st.ts + (("push", q, a[1]),)
                return [(st, a[1] if isnode(a[1]) else node("new"))]
            if m in ("move_to_back", "unlink"):
                st.ts = st.ts + ((m, q, a[1]),)
                return [(st, UNIT)]
            return None
        if re.search(r"[Tt]ag(ged)?(ptr::|_?)NonNull|tagptr::|non_null", n) or "TagNonNull" in n or "MarkedNonNull" in n:
            a = [eng.deref_val(st, x) for x in ev.args]
            if m == "compose":
                return [(st, N("tagged", a[0], a[1]))]
            if a and a[0].op == "tagged":
                if m == "decompose":
                    return [(st, A.TUP(a[0].a[0], a[0].a[1]))]
                if m == "decompose_tag":
                    return [(st, a[0].a[1])]
                if m in ("decompose_non_null", "decompose_ptr", "as_ref", "as_ptr"):
                    return [(st, a[0].a[0])]
                if m == "clone":
                    return [(st, a[0])]
        if re.search(r"Mutex(::)?<.*>(>)?::lock$|Mutex<.*>::lock$|lock_api::.*::lock$", n) or m == "lock" and "utex" in n:
            return [(st, eng.deref_val(st, ev.args[0]))]
        return None


def regions(P):
    e = P.enums.get(REG) or {}
    return {v: A.AGG(REG, v, (), ()) for v in e.values()}, {v: k for k, v in e.items()}


ENT = N("arg", "entry")


def cell(f):
    return N("fld", N("fld", N("fld", ENT, "nodes"), f), "x").a[0]


def qrun(P, path, args, pre, region, isin=True):
    r = QueueRule(region=region, isin=isin)
    eng = ShapeEngine(P, r, [])

    def setup(e, st):
        for t, v in pre.items():
            st.heap[t] = v
    return eng, r, eng.run(path, args=args, setup=setup)


def queues(P, res):
    regs, num = regions(P)
    res.ob(len(regs) <= 4 and set(num.values()) == set(range(len(num))), "regions", "the regions do not fit the two bits of the tag", REG)
    # which queue belongs to which region
    eng = A.Engine(P, QueueRule(), [])

    class New(QueueRule):
        def inline(self, p):
            return True
    eng = A.Engine(P, New(), [])
    owner = {}
    for e in eng.run("<common::concurrent::deques::Deques<K> as std::default::Default>::default"):
        v = eng.deref_val(e.st, e.val)
        for f in v.a[2]:
            r = field(field(v, f), "region")
            if r is not None and isagg(r):
                res.ob(r.a[1] not in owner, "owner:%s" % f, "two queues claim the region %s" % r.a[1], "Deques::default")
                owner[r.a[1]] = N("fld", SELF, f)
    res.ob(owner.get("Other") is N("fld", SELF, "write_order"), "owner:write_order", "the write order queue is not the one for nothing but writes", "Deques::default")
    res.floor("queues", len(owner), 4)
    region = {q: regs[r] for r, q in owner.items()}
    AO, WO = (N("fld", N("fld", ENT, "nodes"), f) for f in ("access_order_q_node", "write_order_q_node"))
    wo = owner.get("Other")
    n = 0

    def case(path, args, pre, isin, want, cells, what, val=Ellipsis, mayskip=False):
        """one run: the events and the entry's cells afterwards"""
        nonlocal n
        if not there(P, res, path, len(args)):
            return []
        n += 1
        where = "%s:%s" % (P.fns[path]["span"][0], P.fns[path]["span"][1])
        k = path.split("::")[-1]
        eng, r, ex = qrun(P, path, args, pre, region, isin)
        res.fns |= eng.visited_fns
        ok = bool(ex) and not r.panics
        if not ok:
            res.bad("%s:panic" % k, "%s (%s) panics or never returns" % (k, what), where)
        for e in ex:
            if e.kind != "ret":
                continue
            if [tuple(x) for x in e.st.ts] != want:
                ok = False
                res.bad("%s:effect" % k, "%s (%s) does %s, not %s" % (k, what, [tuple(A.pp(y, -4) if isinstance(y, A.Node) else y for y in x) for x in e.st.ts], [tuple(A.pp(y, -4) if isinstance(y, A.Node) else y for y in x) for x in want]), where)
            for t, w in cells.items():
                g = e.st.heap.get(t, t)
                if g is not w and not (callable(w) and w(g)):
                    ok = False
                    res.bad("%s:cell" % k, "%s (%s) leaves %s as %s" % (k, what, A.pp(t, -4), A.pp(g, -4)), where)
            if val is not Ellipsis:
                g = eng.deref_val(e.st, e.val)
                if g is not val:
                    ok = False
                    res.bad("%s:value" % k, "%s (%s) returns %s, not %s" % (k, what, A.pp(g, -4), A.pp(val, -4)), where)
        res.ob(ok, "%s:%s" % (k, what), "%s (%s) is wrong" % (k, what), where)
        return ex

    def newnode(el):
        return A.AGG("common::deque::DeqNode", None, ("next", "prev", "element"), (NONE, NONE, el))
    KHD = N("arg", "khd")
    for rn, q in sorted(owner.items()):
        if rn == "Other":
            continue
        rv, tag = regs[rn], K(num[rn])
        tagged = N("tagged", X, tag)

        def composed(g):
            return isagg(g, A.OPT, "Some") and g.a[3][0].op == "tagged" and g.a[3][0].a[0] is node("new") and \
                (g.a[3][0].a[1] is tag or g.a[3][0].a[1].op == "disc" and g.a[3][0].a[1].a[0] is rv)
        case(DQS + "push_back_ao", [SELF, rv, KHD, ENT], {}, None, [("push", q, newnode(KHD))], {AO: composed}, rn)
        case(DQS + "select_mut", [SELF, rv], {}, None, [], {}, rn, val=A.TUP(q, wo))
        got = SOME(tagged)
        for isin in (True, False):
            w = "%s/%s" % (rn, "in" if isin else "not in")
            mv = [("move_to_back", q, X)] if isin else []
            ul = [("unlink", q, X), ("drop", X)] if isin else []
            if isin:
                case(DQS + "move_to_back_ao", [SELF, ENT], {AO: got}, isin, mv, {AO: got}, w)
            case(DQS + "move_to_back_ao_in_deque", [N("arg", "name"), q, ENT], {AO: got}, isin, mv, {AO: got}, w)
            case(DQS + "unlink_ao", [SELF, ENT], {AO: got}, isin, ul, {AO: NONE}, w)
            case(DQS + "unlink_ao_from_deque", [N("arg", "name"), q, ENT], {AO: got}, isin, ul, {AO: NONE}, w)
            case(DQS + "unlink_node_ao", [SELF, tagged], {}, isin, ul, {}, w)
        # the tag and the region it stands for
        eng, r, ex = qrun(P, "<common::CacheRegion as std::convert::From<usize>>::from", [tag], {}, {})
        res.ob([e.val for e in ex if e.kind == "ret"] == [rv], "tag:" + rn, "the tag %s is not read back as %s" % (num[rn], rn), REG)
        for other, o in sorted(owner.items()):
            eng, r, ex = qrun(P, "<common::CacheRegion as std::cmp::PartialEq<usize>>::eq", [rv, K(num[other])], {}, {})
            same = [eng.deref_val(e.st, e.val) for e in ex]
            res.ob(all(not eng.branch_bool(e.st.copy(), v, other != rn) for e, v in zip(ex, same)) and len(ex) > 0 or any(x.op == "eq" for x in same), "tageq:%s/%s" % (rn, other), "region %s is taken for tag %s" % (rn, num[other]), REG)
            if other not in (rn, "Other"):
                for f, args, pre in ((DQS + "move_to_back_ao_in_deque", [N("arg", "name"), o, ENT], {AO: got}), (DQS + "unlink_ao_from_deque", [N("arg", "name"), o, ENT], {AO: got})):
                    if not there(P, res, f, len(args)):
                        continue
                    eng, r, ex = qrun(P, f, args, pre, region, True)
                    res.ob(not any(e.kind == "ret" and e.st.ts for e in ex), "foreign:" + f.split("::")[-1], "a node of one queue is touched through another", f)
    for f, args, c in (("move_to_back_ao", [SELF, ENT], AO), ("unlink_ao", [SELF, ENT], AO), ("move_to_back_wo", [SELF, ENT], WO), ("unlink_wo", [wo, ENT], WO),
                       ("move_to_back_ao_in_deque", [N("arg", "name"), owner["MainProbation"], ENT], AO), ("unlink_ao_from_deque", [N("arg", "name"), owner["MainProbation"], ENT], AO),
                       ("move_to_back_wo_in_deque", [wo, ENT], WO)):
        case(DQS + f, args, {c: NONE}, True, [], {c: NONE}, "no node")
    case(DQS + "push_back_wo", [SELF, KHD, ENT], {}, None, [("push", wo, newnode(KHD))], {WO: SOME(node("new"))}, "write order")
    for isin in (True, False):
        w = "in" if isin else "not in"
        mv = [("move_to_back", wo, X)] if isin else []
        ul = [("unlink", wo, X), ("drop", X)] if isin else []
        case(DQS + "move_to_back_wo", [SELF, ENT], {WO: SOME(X)}, isin, mv, {WO: SOME(X)}, w)
        case(DQS + "move_to_back_wo_in_deque", [wo, ENT], {WO: SOME(X)}, isin, mv, {WO: SOME(X)}, w)
        case(DQS + "unlink_wo", [wo, ENT], {WO: SOME(X)}, isin, ul, {WO: NONE}, w)
        case(DQS + "unlink_node_wo", [wo, X], {}, isin, ul, {}, w)
    res.floor("queue operations by case", n, 25)
    # an entry's own pointers
    VE = "common::concurrent::ValueEntry::<K, V>::"
    TN, TG = (N("fld", N("fld", ENT, "nodes"), f) for f in ("timer_node", "timer_node_expiry_gen"))
    full = {AO: N("arg", "ao"), WO: N("arg", "wo"), TN: N("arg", "tn"), TG: N("arg", "tg")}
    V, G = N("arg", "node"), N("arg", "gen")
    for f, args, want, val in (
            ("access_order_q_node", [ENT], {}, full[AO]), ("write_order_q_node", [ENT], {}, full[WO]),
            ("set_access_order_q_node", [ENT, V], {AO: V}, UNIT), ("set_write_order_q_node", [ENT, V], {WO: V}, UNIT),
            ("take_access_order_q_node", [ENT], {AO: NONE}, full[AO]), ("take_write_order_q_node", [ENT], {WO: NONE}, full[WO]),
            ("timer_node_with_expiry_gen", [ENT], {}, A.TUP(full[TN], full[TG])), ("set_timer_node", [ENT, V, G], {TN: V, TG: G}, UNIT),
            ("take_timer_node", [ENT], {TN: NONE}, A.TUP(full[TN], full[TG])), ("unset_q_nodes", [ENT], {AO: NONE, WO: NONE}, UNIT)):
        w = dict(full)
        if f == "take_timer_node":
            del w[TG]
        w.update(want)
        case(VE + f, args, full, None, [], w, "pointers", val=val)


# ---------------------------------------------------------------- the timer wheel

TWP = "common::timer_wheel::TimerWheel::<K>::"
TIMER = "common::timer_wheel::"
ITER = "<common::timer_wheel::TimerEventsIter<'_, K> as std::iter::Iterator>::next"


class WheelRule(QueueRule):
    """ts: events; what the wheel's own helpers do is judged on its own."""

    def __init__(self, stops=(), oneround=False):
        QueueRule.__init__(self)
        self.stops = stops
        self.round = oneround
        self.iters = {}
        self.cuts = []

    def inline(self, p):
        return QueueRule.inline(self, p) and p.split("::")[-1] not in self.stops and not p.endswith("::expiration_state")

    def on(self, eng, st, ev):
        if ev.kind == "iter_item":
            self.iters[ev.args[1]] = eng.deref_val(st, ev.args[0])
        return QueueRule.on(self, eng, st, ev)

    def track(self, atom):
        return self.round and atom.op == "le"

    def cut(self, st):
        """the loop came round"""
        if self.round and any(x[0] in ("popped", "empty") for x in st.ts):
            self.cuts.append(st.copy())
            return True
        return False

    def more(self, eng, st, ev, n, m):
        a = [eng.deref_val(st, x) for x in ev.args]
        if n.endswith("::expiration_state"):
            return [(st, A.TUP(N("exp", a[0]), N("gen", a[0])))]
        if m in self.stops:
            if m == "bucket_indices":
                return [(st, A.TUP(N("level", a[1]), N("index", a[1])))]
            if m == "time_nanos":
                return [] if self.cut(st) else [(st, N("nanos", a[1]))]
            if m == "reset_timer_node_positions":
                if self.cut(st):
                    return []
                st.ts = st.ts + (("reset",) + tuple(a[1:]),)
                return [(st, UNIT)]
            if m == "pop_timer_node":
                if self.cut(st):
                    return []
                q = st.copy()
                q.ts = q.ts + (("empty",) + tuple(a[1:]),)
                st.ts = st.ts + (("popped",) + tuple(a[1:]),)
                return [(q, NONE), (st, SOME(X))]
            if m == "schedule_existing_node":
                q = st.copy()
                st.ts = st.ts + (("sched", a[1]),)
                q.ts = q.ts + (("sched", a[1]),)
                t = TIMER + "ReschedulingResult"
                return [(st, A.AGG(t, "Rescheduled", (), ())), (q, A.AGG(t, "Removed", ("0",), (a[1],)))]
        if DEQFN.match(n) and n.split("::")[-1] in ("pop_front", "peek_front", "peek_back", "move_front_to_back", "len"):
            if m == "pop_front":
                st.ts = st.ts + (("pop", a[0]),)
                return [(st, SOME(X))]
            if m == "peek_front":
                return [(st, SOME(X))]
            if m == "peek_back":
                eng.kill_facts(st, node("backnode"))
                return [(st, SOME(node("backnode")))]
            if m == "move_front_to_back":
                st.ts = st.ts + (() if st.ts and st.ts[-1] == ("rotate", a[0]) else (("rotate", a[0]),))
                return [(st, UNIT)]
        return QueueRule.more(self, eng, st, ev, n, m)


def idx(w, l, i):
    return N("idx", N("idx", N("fld", w, "wheels"), l), i)


def strip(v):
    """casts between integer widths aside"""
    while v.op in ("cast", "trunc") or v.op == "op" and v.a[0] in ("cast", "Cast") and len(v.a) >= 2:
        v = v.a[0] if v.op != "op" else v.a[1]
    return v


def wheel(P, res):
    tb = {k.split("::")[-1]: v.get("table") for k, v in P.consts.items() if k.startswith(TIMER) and "table" in v}
    B, S, H = tb.get("BUCKET_COUNTS"), tb.get("SPANS"), tb.get("SHIFT")
    if not (B and S and H):
        res.bad("tables", "the constant tables of the timer wheel were not found", TIMER)
        return
    res.ob(all(0 < b <= 128 and b & (b - 1) == 0 for b in B), "tables:counts", "the bucket counts %s cannot be used as masks" % B, TIMER)
    res.ob(len(S) == len(B) + 1 and len(H) == len(B) and len(B) >= 2, "tables:len", "the tables do not have one row per level", TIMER)
    res.ob(all(S[i] == 1 << H[i] for i in range(min(len(H), len(S)))), "tables:shift", "a level's shift %s is not the logarithm of its span %s" % (H, S), TIMER)
    res.ob(all(S[i] < S[i + 1] for i in range(len(S) - 2)) and S[-2] <= S[-1], "tables:rise", "the spans %s do not rise" % S, TIMER)
    res.ob(all(S[i + 1] <= S[i] * B[i] for i in range(min(len(B), len(S) - 1) - 1)), "tables:wrap", "the buckets of a level cover less time (%s x %s) than is scheduled on it (%s)" % (S, B, S[1:]), TIMER)

    def go(path, args, pre, stops=("bucket_indices",), oneround=False):
        if not there(P, res, path, len(args)):
            return None, None, []
        r = WheelRule(stops, oneround)
        eng = ShapeEngine(P, r, [])

        def setup(e, st):
            for t, v in pre.items():
                st.heap[t] = v
        ex = [e for e in eng.run(path, args=args, setup=setup) if e.kind == "ret"]
        res.fns |= eng.visited_fns
        for loc, facts in r.panics:
            if not any(v and ("is_empty(self.wheels)" in a or "Deque::len(" in a) for a, v in facts):
                res.bad("panic:" + path.split("::")[-1], "%s can panic at %s" % (path.split("::")[-1], loc), loc)
        if not ex:
            res.bad("noexit:" + path.split("::")[-1], "never returns", path)
        return eng, r, ex

    F = lambda x, *fs: F(N("fld", x, fs[0]), *fs[1:]) if fs else x
    # new / advance / the iterator's start and end
    NOW = N("arg", "now")
    for e in go(TWP + "new", [NOW], {})[2]:
        v = e.val
        res.ob(field(v, "origin") is NOW and field(v, "current") is NOW, "new", "a new wheel does not start at the time it is given", TWP + "new")
    CT = N("arg", "current_time")
    OLD = N("arg", "old")
    for e in go(TWP + "advance", [SELF, CT], {F(SELF, "current"): OLD})[2]:
        v = e.val
        res.ob(e.st.heap.get(F(SELF, "current")) is CT, "advance:current", "advance does not move the wheel to the given time", TWP + "advance")
        res.ob(isagg(v) and field(v, "timer_wheel") is SELF and field(v, "previous_time") is OLD and field(v, "current_time") is CT and field(v, "is_done") is K(0)
               and field(v, "level") is K(0) and field(v, "is_new_level") is K(1), "advance:iter", "the events start elsewhere than at the first level between the last and the given time", TWP + "advance")
    TWH = F(SELF, "timer_wheel")
    for done in (0, 1):
        for e in go("<common::timer_wheel::TimerEventsIter<'_, K> as std::ops::Drop>::drop", [SELF], {F(SELF, "is_done"): K(done), F(TWH, "current"): OLD, F(SELF, "previous_time"): NOW})[2]:
            res.ob(e.st.heap.get(F(TWH, "current")) is (OLD if done else NOW), "drop:%d" % done, "an iterator dropped %s sets the wheel's time to %s" % ("at its end" if done else "before its end", A.pp(e.st.heap.get(F(TWH, "current")))), TIMER + "TimerEventsIter::drop")
    # schedule
    EI, DN, G = N("arg", "entry_info"), N("arg", "deq_nodes"), N("arg", "expiry_gen")
    some = none = 0
    for e in go(TWP + "schedule", [SELF, EI, DN, G], {})[2]:
        eng = A.Engine(P, WheelRule(), [])
        v = e.val
        t = N("fld", N("as", N("exp", EI), "Some"), "0")
        if isagg(v, A.OPT, "None"):
            none += 1
            f = eng.lookup(e.st, N("var", N("exp", EI)))
            res.ob(not e.st.ts, "schedule:none", "schedule answers None after queueing a timer", TWP + "schedule")
            res.ob(f == "None" or eng.lookup(e.st, A.EQ(N("gen", EI), G)) is False or not relevant(e.st), "schedule:skip", "an entry that has an expiration time and the right generation is not scheduled", TWP + "schedule")
            continue
        some += 1
        ok = len(e.st.ts) == 1 and e.st.ts[0][0] == "push"
        res.ob(ok, "schedule:push", "schedule does not queue exactly one timer", TWP + "schedule")
        if not ok:
            continue
        _, q, nd = e.st.ts[0]
        t = [x for x in subs(q) if x.op == "level"]
        t = t[0].a[0] if t else None
        res.ob(t is not None and q is idx(SELF, N("level", t), N("index", t)), "schedule:bucket", "the timer goes to %s, not to the bucket of its time" % A.pp(q, -4), TWP + "schedule")
        res.ob(t is not None and N("exp", EI) in set(subs(t)), "schedule:time", "the bucket is not chosen by the entry's expiration time", TWP + "schedule")
        res.ob(eng.lookup(e.st, A.EQ(N("gen", EI), G)) is True, "schedule:gen", "a timer is scheduled though the generation changed", TWP + "schedule")
        el = field(nd, "element")
        pos = field(el, "pos")
        res.ob(isagg(pos, A.OPT, "Some") and t is not None and tuple(strip(x) for x in pos.a[3][0].a[3]) == (N("level", t), N("index", t)), "schedule:pos", "the timer does not know its bucket", TWP + "schedule")
        res.ob(field(el, "entry_info") is EI and field(el, "deq_nodes") is DN and field(el, "expiry_gen") is G, "schedule:node", "the timer does not carry the entry it is for", TWP + "schedule")
        res.ob(isagg(v, A.OPT, "Some") and v.a[3][0] is node("new"), "schedule:value", "schedule does not return the queued timer", TWP + "schedule")
    res.ob(not there(P, res, TWP + "schedule", 4) or some > 0 and none > 0, "schedule:cases", "schedule never %s" % ("queues" if not some else "declines"), TWP + "schedule")

    def timer(pos):
        return A.AGG(TIMER + "TimerNode", "Entry", ("pos", "expiry_gen", "entry_info", "deq_nodes"), (pos, G, EI, DN))
    EL = F(X, "element")
    AT = SOME(A.TUP(N("arg", "l"), N("arg", "i")))
    TN, TG = F(DN, "timer_node"), F(DN, "timer_node_expiry_gen")

    def el_of(e):
        v = e.st.heap.get(EL)
        g = dict((n, v.a[3][i]) for i, n in enumerate(v.a[2])) if v is not None and isagg(v) else {}
        # partial writes
        for n in ("pos", "expiry_gen", "entry_info", "deq_nodes"):
            for t in (F(EL, n), N("fld", N("as", EL, "Entry"), n)):
                if t in e.st.heap:
                    g[n] = e.st.heap[t]
        return g

    def placed(e, key, where, want_unlink):
        ts = [x for x in e.st.ts]
        if want_unlink:
            ok = ts[:1] == [("unlink", idx(SELF, N("arg", "l"), N("arg", "i")), X)]
            res.ob(ok, key + ":unlink", "the timer is not taken out of the bucket it is in", where)
            ts = ts[1:]
        g = el_of(e)
        v = e.val
        if isagg(v, A.OPT, "Some"):
            v = v.a[3][0]
        if isagg(v) and v.a[1] == "Rescheduled":
            ok = len(ts) == 1 and ts[0][0] == "push" and ts[0][2] is X
            res.ob(ok, key + ":push", "a rescheduled timer is not queued exactly once", where)
            if ok:
                lv = [x for x in subs(ts[0][1]) if x.op == "level"]
                t = lv[0].a[0] if lv else None
                res.ob(t is not None and ts[0][1] is idx(SELF, N("level", t), N("index", t)) and N("exp", EI) in set(subs(t)), key + ":bucket", "a rescheduled timer goes to another bucket than its time's", where)
                pos = g.get("pos")
                res.ob(t is not None and pos is not None and isagg(pos, A.OPT, "Some") and tuple(strip(x) for x in pos.a[3][0].a[3]) == (N("level", t), N("index", t)), key + ":pos", "a rescheduled timer does not know its bucket", where)
            return "Rescheduled"
        if isagg(v) and v.a[1] == "Removed":
            res.ob(not ts, key + ":removed", "a timer with nothing to wait for is queued", where)
            res.ob(g.get("pos") is NONE, key + ":unpos", "a removed timer still names a bucket", where)
            res.ob(e.st.heap.get(TN) is NONE, key + ":unset", "the entry still points to its removed timer", where)
            res.ob(v.a[3][0] is X, key + ":node", "another timer is reported as removed", where)
            return "Removed"
        return "None" if isagg(v, A.OPT, "None") else "?"

    pre = {TN: SOME(X), TG: G}
    w = TWP + "schedule_existing_node"
    seen = {placed(e, "existing", w, False) for e in go(w, [SELF, X], {**pre, EL: timer(NONE)})[2]}
    res.ob(not there(P, res, w, 2) or seen == {"Rescheduled", "Removed"}, "existing:cases", "schedule_existing_node answers only %s" % sorted(seen), w)
    w = TWP + "reschedule"
    for p in (AT, NONE):
        seen = set()
        for e in go(w, [SELF, X, N("arg", "expected")], {**pre, EL: timer(p)})[2]:
            eng = A.Engine(P, WheelRule(), [])
            same_gen = eng.lookup(e.st, A.EQ(G, N("arg", "expected")))
            if isagg(e.val, A.OPT, "None"):
                res.ob(same_gen is False, "reschedule:skip", "a timer of the right generation is not rescheduled", w)
                res.ob(not e.st.ts, "reschedule:stale", "a stale timer is touched", w)
                seen.add("None")
                continue
            res.ob(same_gen is True, "reschedule:gen", "a timer of another generation is rescheduled", w)
            seen.add(placed(e, "reschedule", w, p is AT))
        res.ob(not there(P, res, w, 3) or seen == {"None", "Rescheduled", "Removed"}, "reschedule:cases", "reschedule answers only %s" % sorted(seen), w)
    w = TWP + "deschedule"
    for p in (AT, NONE):
        seen = set()
        for e in go(w, [SELF, X, N("arg", "expected")], {**pre, EL: timer(p)})[2]:
            eng = A.Engine(P, WheelRule(), [])
            same_gen = eng.lookup(e.st, A.EQ(G, N("arg", "expected")))
            ts = list(e.st.ts)
            seen.add(e.val)
            if e.val is K(0):
                res.ob(same_gen is False and not ts, "deschedule:skip", "a timer of the right generation stays, or a stale one is touched", w)
                continue
            res.ob(same_gen is True, "deschedule:gen", "a timer of another generation is taken off", w)
            want = ([("unlink", idx(SELF, N("arg", "l"), N("arg", "i")), X)] if p is AT else []) + [("drop", X)]
            res.ob(ts == want, "deschedule:effect", "taking a timer off does %s" % [x[0] for x in ts], w)
        res.ob(not there(P, res, w, 3) or seen == {K(0), K(1)}, "deschedule:cases", "deschedule answers only %s" % sorted(A.pp(x) for x in seen), w)
    # one bucket
    L, I = N("arg", "level"), N("arg", "index")
    w = TWP + "pop_timer_node"
    for el, want in ((A.AGG(TIMER + "TimerNode", "Sentinel", (), ()), NONE), (timer(AT), SOME(X))):
        for e in go(w, [SELF, L, I], {EL: el})[2]:
            v = e.val
            res.ob(v is want, "pop:value", "%s at the front of a bucket gives %s" % ("the sentinel" if want is NONE else "a timer", A.pp(v)), w)
            res.ob(list(e.st.ts) == ([] if want is NONE else [("pop", idx(SELF, L, I))]), "pop:effect", "the bucket loses %s" % ("its sentinel" if want is NONE else "something else than its front timer"), w)
            if want is not NONE:
                res.ob(el_of(e).get("pos") is NONE, "pop:pos", "a timer taken out of its bucket still names it", w)
    w = TWP + "reset_timer_node_positions"
    eng, r, ex = go(w, [SELF, L, I], {})
    for e in ex:
        f = eng.lookup(e.st, N("var", F(node("backnode"), "element")))
        res.ob(f == "Sentinel", "rotate:end", "the rotation ends though the sentinel is not at the back", w)
        res.ob(all(x == ("rotate", idx(SELF, L, I)) for x in e.st.ts), "rotate:effect", "another bucket is rotated", w)
    res.ob(not there(P, res, w, 3) or any(e.st.ts for e in ex), "rotate:moves", "nothing is ever rotated", w)
    # which bucket
    w = TWP + "bucket_indices"
    T0 = N("arg", "time")
    eng, r, ex = go(w, [SELF, T0], {}, stops=("time_nanos",))
    loops = 0
    for e in ex:
        v = e.val
        if not (isagg(v) and len(v.a[3]) == 2):
            res.bad("bucket:form", "bucket_indices returns %s" % A.pp(v), w)
            continue
        lv, ix = v.a[3]
        if lv.op == "k" and (ix.op == "k" or lv.a[0] >= len(B) - 1):
            res.ob(lv.a[0] == len(B) - 1 and ix is K(0) and B[-1] == 1, "bucket:overflow", "times beyond all levels go to %s, not to the overflow level" % A.pp(v), w)
            continue
        loops += 1
        if A.phis(lv) or A.phis(ix):
            continue        # a hand-written counter: which level it stands for is not resolved
        want = N("op", "Shr", N("nanos", T0), N("idx", N("const", TIMER + "SHIFT", "&[u64]"), lv))
        got = mask(strip(ix), lv)
        res.ob(got is not None and strip(got) is want, "bucket:index", "the bucket index is %s" % A.pp(ix, -5), w)
        # what was compared
        ok = False
        for a, val in e.st.facts.items():
            if a.op == "le" and val is False and isidx(a.a[0], "SPANS") and plus(a.a[0].a[1], lv) == 1:
                d = a.a[1]
                ok |= any(x.op in ("call", "pure") and "duration_since" in x.a[0] and tuple(eng.deref_val(e.st, y) for y in x.a[1]) == (T0, F(SELF, "current")) for x in subs(d))
        res.ob(ok, "bucket:span", "a level is chosen without the time left being below the span of the next", w)
        r0 = r.iters.get(lv)
        if r0 is not None and r0.op in ("call", "pure", "agg"):
            bounds = [x for x in (r0.a[1] if r0.op != "agg" else r0.a[3])]
            incl = "Inclusive" in str(r0.a[0])
            b = [x.a[0] if isinstance(x, A.Node) and x.op == "k" else None for x in bounds[:2]]
            res.ob(b[0] == 0 and b[1] == len(B) - (2 if incl else 1), "bucket:levels", "the levels tried are %s..%s of %d" % (b[0], b[1] if len(b) > 1 else "?", len(B)), w)
    res.floor("bucket choices", loops, 1)
    rounds(P, res, go, F, B)


def isidx(v, name):
    return v.op == "idx" and v.a[0].op == "const" and v.a[0].a[0] == TIMER + name


def plus(v, base):
    a, k = norm(v)
    if v.op == "k" and base.op == "k":
        return v.a[0] - base.a[0]
    return k if a is base else None


def mask(v, lv):
    """x & (BUCKET_COUNTS[lv] - 1) -> x"""
    if v.op == "op" and v.a[0] == "BitAnd":
        for a, b in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
            x, k = norm(strip(a))
            if k == -1 and isidx(x, "BUCKET_COUNTS") and x.a[1] is lv:
                return b
    return None


def relevant(st):
    return any(x.op in ("exp", "gen") for a in st.facts for x in subs(a))


def rounds(P, res, go, F, B):
    """One round of the loop of TimerEventsIter::next, from every state it can be in."""
    LV, IX, END, MASK = (N("arg", x) for x in ("lv", "ix", "end", "mask"))
    TWH, PT, CT = F(SELF, "timer_wheel"), N("arg", "pt"), N("arg", "ct")
    NAMES = ("level", "index", "end_index", "index_mask", "is_done", "is_new_level", "is_new_index")
    EI, DN = N("arg", "ei"), N("arg", "dn")
    el = A.AGG(TIMER + "TimerNode", "Entry", ("pos", "expiry_gen", "entry_info", "deq_nodes"), (NONE, N("arg", "g"), EI, DN))
    w = TIMER + "TimerEventsIter::next"
    kinds = {}
    for done, nl, ni in ((1, 0, 0), (1, 1, 1), (0, 1, 1), (0, 0, 1), (0, 0, 0)):
        pre = {F(SELF, "level"): LV, F(SELF, "index"): IX, F(SELF, "end_index"): END, F(SELF, "index_mask"): MASK, F(SELF, "is_done"): K(done),
               F(SELF, "is_new_level"): K(nl), F(SELF, "is_new_index"): K(ni), F(SELF, "previous_time"): PT, F(SELF, "current_time"): CT,
               F(X, "element"): el, F(DN, "timer_node"): SOME(X)}
        if not there(P, res, ITER, 1):
            continue
        eng, r, ex = go(ITER, [SELF], pre, stops=("time_nanos", "reset_timer_node_positions", "pop_timer_node", "schedule_existing_node"), oneround=True)
        what = "new level" if nl else "new bucket" if ni else "same bucket"
        ends = [(e.st, eng.deref_val(e.st, e.val)) for e in ex] + [(s, None) for s in r.cuts]
        for st, val in ends:
            g = {n: strip(st.heap.get(F(SELF, n), F(SELF, n))) for n in NAMES}
            ts = list(st.ts)
            if done:
                res.ob(val is NONE and not ts, "next:done", "the iterator goes on after its end", w)
                continue
            # where the round starts
            lx, mk = IX, MASK
            en = END
            if nl:
                sh = N("idx", N("const", TIMER + "SHIFT", "&[u64]"), LV)
                p, c = (N("op", "Shr", N("nanos", t), sh) for t in (PT, CT))
                gone = lookle(eng, st, c, p)
                if gone is True:
                    kinds["end of time"] = 1
                    res.ob(val is NONE and g["is_done"] is K(1) and not ts, "next:end", "no tick passed on a level, yet the iterator goes on", w)
                    continue
                if gone is None and not ts:
                    res.bad("next:early", "the iterator ends without having compared the ticks of the last and the current time", w)
                    continue
                res.ob(gone is False, "next:ticks", "a level is processed without the current tick being later than the last one", w)
                mk = g["index_mask"]
                x, k = norm(mk)
                res.ob(k == -1 and isidx(x, "BUCKET_COUNTS") and x.a[1] is LV, "next:mask", "the bucket mask is %s" % A.pp(mk, -4), w)
                moved_on = any(t[0] == "empty" for t in ts)
                lx = g["index"]
                if moved_on:
                    lx = norm(lx)[0]
                m2 = mask(lx, LV) or next((b for a, b in ((lx.a[1], lx.a[2]), (lx.a[2], lx.a[1])) if a is mk), None) if lx.op == "op" and len(lx.a) == 3 else None
                res.ob(m2 is not None and strip(m2) is p, "next:start", "a level starts at bucket %s, not at that of the last time" % A.pp(lx, -5), w)
                en = g["end_index"]
                res.ob(ending(en, lx, c, p, LV), "next:stop", "a level is processed up to %s" % A.pp(en, -7), w)
            # the bucket
            want = []
            pos = ts[-1] if False else next((t for t in ts if t[0] in ("popped", "empty")), None)
            if pos is None:
                res.bad("next:nopop", "a round of the iterator (%s) looks at no bucket" % what, w)
                continue
            b = strip(pos[2])
            good = pos[1] is LV and b.op == "op" and b.a[0] == "BitAnd" and {strip(b.a[1]), strip(b.a[2])} == {strip(lx), strip(mk)} or pos[1] is LV and b is strip(lx) and nl
            res.ob(good, "next:bucket", "timers are taken from %s/%s" % (A.pp(pos[1], -3), A.pp(b, -5)), w)
            rs = [t for t in ts if t[0] == "reset"]
            res.ob((len(rs) == 1 and rs[0][1:] == pos[1:] and ts.index(rs[0]) < ts.index(pos)) if ni or nl else not rs, "next:reset", "the sentinel is %s (%s)" % ("not moved to the back before a bucket is processed" if ni or nl else "moved while a bucket is being processed", what), w)
            if pos[0] == "popped":
                t = N("exp", EI)
                res.ob(g["level"] is LV and g["is_done"] is K(0) and g["is_new_level"] is K(0) and g["is_new_index"] is K(0) and g["index"] is lx and g["end_index"] is en, "next:stay", "the iterator leaves a bucket before its sentinel was seen", w)
                sch = [x for x in ts if x[0] == "sched"]
                has = eng.lookup(st, N("var", t))
                tm = eng.payload(t) if hasattr(eng, "payload") else N("fld", N("as", t, "Some"), "0")
                due = None
                for a, v in st.facts.items():
                    if a.op == "le" and t in set(subs(a.a[0])) and a.a[1] is CT:
                        due = v
                    elif a.op == "le" and t in set(subs(a.a[1])) and a.a[0] is CT and v is False:
                        due = True
                unset = st.heap.get(F(DN, "timer_node")) is NONE
                if has == "None":
                    kinds["no deadline"] = 1
                    res.ob(unset and not sch, "next:nodeadline", "an entry without a deadline keeps pointing to its timer", w)
                elif val is not None and isagg(val, A.OPT, "Some") and isagg(val.a[3][0]) and val.a[3][0].a[1] == "Expired":
                    kinds["expired"] = 1
                    res.ob(due is True and unset and not sch and val.a[3][0].a[3][0] is X, "next:expired", "an entry is reported as expired %s" % ("and stays scheduled" if sch else "while it points to its timer" if due else "though its deadline has not been found to have passed"), w)
                else:
                    kinds["rescheduled"] = 1
                    res.ob(due is False, "next:due", "an entry whose deadline has passed is not reported", w)
                    res.ob(sch == [("sched", X)], "next:resched", "an entry that is not due is not scheduled again", w)
            else:
                ni_, nl_ = g["is_new_index"], g["is_new_level"]
                nx, k = norm(g["index"])
                last = None
                for a, v in st.facts.items():
                    if a.op == "le" and strip(a.a[0]) is strip(en) and norm(strip(a.a[1])) == (lx, 1):
                        last = v
                    elif a.op == "le" and strip(a.a[1]) is strip(en) and norm(strip(a.a[0])) == (lx, 1) and v is False:
                        last = True
                    elif a.op == "le" and strip(a.a[0]) is strip(en) and strip(a.a[1]) is strip(lx) and v is True:
                        last = True
                if last is False:
                    kinds["next bucket"] = 1
                    res.ob(val is None and nx is lx and k == 1 and ni_ is K(1) and nl_ is K(0) and g["level"] is LV and g["end_index"] is en, "next:advance", "after a bucket the iterator does not go to the next one", w)
                elif val is None:
                    kinds["next level"] = 1
                    res.ob(last is True and norm(g["level"]) == (LV, 1) and nl_ is K(1), "next:level", "after the last bucket of a level the iterator does not go to the next level", w)
                else:
                    kinds["end of levels"] = 1
                    over = False
                    for a, v in st.facts.items():
                        if a.op in ("le", "eq") and v is True:
                            for x, y in ((a.a[0], a.a[1]), (a.a[1], a.a[0]))[:2 if a.op == "eq" else 1]:
                                (bx, kx), (by, ky) = norm(x), norm(y)
                                if bx.op == "k":
                                    bx, kx = None, kx + bx.a[0] - len(B)
                                over |= by is LV and ky - kx == 1 and (bx is None or "BUCKET_COUNTS" in A.pp(bx, -4) and bx.op != "idx")
                    res.ob(last is True and over and val is NONE and g["is_done"] is K(1), "next:over", "the iterator ends before the last level was processed", w)
    res.floor("rounds of the timer events", len(kinds), 7)


def lookle(eng, st, a, b):
    r = eng.lookup(st, N("le", a, b))
    if r is None:
        q = eng.lookup(st, N("le", b, a))
        if q is False:
            return True
        if eng.lookup(st, A.EQ(a, b)) is True:
            return True
    return r


def ending(en, lx, c, p, lv):
    """en = lx + min(c - p + 1, BUCKET_COUNTS[lv])"""
    if en.op != "op" or en.a[0] != "Add":
        return False
    for a, s in ((en.a[1], en.a[2]), (en.a[2], en.a[1])):
        if strip(a) is not strip(lx):
            continue
        for x in subs(s):
            if x.op in ("call", "pure", "min") and (x.op == "min" or x.a[0].split("::")[-1] == "min"):
                args = [strip(y) for y in (x.a[1] if x.op != "min" else x.a)]
                d = [norm(y) for y in args]
                return any(k == 1 and y.op == "op" and y.a[0] == "Sub" and y.a[1] is c and y.a[2] is p for y, k in d) and any(isidx(y, "BUCKET_COUNTS") and y.a[1] is lv for y in args)
    return False


def c22(P, res, tier="quick"):
    lists(P, res)
    queues(P, res)
    wheel(P, res)
