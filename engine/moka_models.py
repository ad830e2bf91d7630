"""Models of the concurrent hash table (cht) operations, used when the table itself is
not the object of analysis.  Each runs the caller's closures the way the table does: the
table may retry a CAS, so `insert_with_or_modify` may run both of its closures."""
import re
import absint as A
from absint import N, NONE, SOME, UNIT, K, TUP, Exit, isagg, EQ
from builtins_ import then, _rets, method

CHT = re.compile(r"^cht::segment::HashMap::<")


def is_cht(name):
    return bool(CHT.match(name))


def chtkey(site):
    return N("chtkey", site)


def chtval(site):
    return N("chtval", site)


def cht_model(eng, st, ev):
    name = ev.name
    if not is_cht(name):
        return None
    m = method(name)
    site, fid, b, ln = ev.site, ev.fid, ev.blk, ev.ln
    fn = eng.P.fns.get(ev.fn)
    args = ev.args
    k, v = chtkey(site), chtval(site)
    eng.tty[v] = "V"

    def cv(s, f, a, tag=""):
        return eng.call_value(s, f, a, fid, b, ln, tag, ev.fn, fn)

    def fresh(s):
        eng.kill_facts(s, k)
        eng.kill_facts(s, v)
        s = out(s, "found", args[0], k, v)
        if len(s) != 1:
            raise A.EngineError("found hook must not split")
        return s[0]

    hashv = eng.deref_val(st, args[2] if m.startswith("insert") else args[1]) if len(args) > 2 else None

    def out(s, kind, *a):
        return eng.emit(s, A.Ev(kind=kind, name=m, args=a, fid=fid, fn=ev.fn, blk=b, ln=ln, site=site, raw=args[0], ty=hashv, vals=args))

    sts = out(st, "lookup", args[0])
    if len(sts) != 1:
        raise A.EngineError("lookup hook must not split")
    st = sts[0]
    if m == "get_key_value_and":
        r = [(st.copy(), NONE)]
        return _rets(r) + then(cv(fresh(st), args[3], [k, v]), lambda s, x: [(s, SOME(x))])
    if m == "get_key_value_and_then":
        return [(st.copy(), NONE)] + _rets(cv(fresh(st), args[3], [k, v]))
    if m in ("get", "get_and"):
        return [(st.copy(), NONE), (fresh(st), SOME(v))]
    if m in ("contains_key",):
        return [(st.copy(), K(0)), (st, K(1))]
    if m in ("remove_if", "remove_entry_if_and"):
        res = [(q, NONE) for q in out(st.copy(), "unremoved", args[0])]

        def cond(s, c):
            r = []
            for q, x in eng.fork_bool(s, c):
                if not x:
                    r += [(q2, NONE) for q2 in out(q, "unremoved", args[0])]
                    continue
                for q2 in out(q, "removed", k, v):
                    if m == "remove_if":
                        r.append((q2, SOME(v)))
                    else:
                        r += then(cv(q2, args[4], [k, v], "w"), lambda s, x: [(s, SOME(x))])
            return r
        return _rets(res) + then(cv(fresh(st), args[3], [k, v]), cond)
    if m in ("remove_entry", "remove"):
        res = [(st.copy(), NONE)]
        for q in out(fresh(st), "removed", k, v):
            res.append((q, SOME(TUP(k, v)) if m == "remove_entry" else SOME(v)))
        return res
    if m == "insert_with_or_modify":
        # [map, key, hash, on_insert, on_modify]
        res = []
        ret_old = N("chtold", site)

        def ins(s, x):
            r = []
            for q in out(s, "inserted", args[1], x):
                r.append((q, NONE))
            return r

        def mod(s, x):
            r = []
            for q in out(s, "replaced", args[1], v, x):
                r.append((q, SOME(ret_old)))
            return r
        s1, s2, s3, s4 = st.copy(), st.copy(), st.copy(), st
        res += then(cv(s1, args[3], [], "i"), ins)
        res += then(cv(fresh(s2), args[4], [k, v], "m"), mod)
        if getattr(eng.rule, "cht_retries", True):
            res += then(then(cv(s3, args[3], [], "i"), lambda s, x: cv(fresh(s), args[4], [k, v], "m")), mod)
            res += then(then(cv(fresh(s4), args[4], [k, v], "m"), lambda s, x: cv(s, args[3], [], "i")), ins)
        return res
    if m == "insert_entry_and":
        r = []
        for q in out(st.copy(), "inserted", args[1], args[3]):
            r.append((q, NONE))
        for q in out(fresh(st), "replaced", args[1], v, args[3]):
            r += then(cv(q, args[4], [k, v]), lambda s, x: [(s, SOME(x))])
        return r
    if m == "insert_if_not_present":
        r = []
        for q in out(st.copy(), "inserted", args[1], args[3]):
            r.append((q, NONE))
        r.append((fresh(st), SOME(v)))
        return r
    if m == "iter":
        return [(st, N("chtiter", eng.deref_val(st, args[0]), ev.site))]
    return None
