"""Models of the std / async-runtime operations the analysed code is written with."""
import re
import absint as A
from absint import (N, K, UNIT, MOVED, TRUE, FALSE, NONE, SOME, OK, ERR, READY, PENDING, TUP,
                    AGG, isagg, field, EQ, LE, NOT, TRANSPARENT_NEW, DEREF, CLONE, CMP, Exit)

PANIC = re.compile(r"panicking::|std::process::abort|assert_failed|unreachable_default_msg|std::rt::begin_panic")
LAST = re.compile(r"([A-Za-z_0-9]+)$")


def method(name):
    m = LAST.search(name)
    return m.group(1) if m else name


def _rets(x):
    return [e if isinstance(e, Exit) else Exit("ret", e[0], e[1]) for e in x]


def then(rs, f):
    """Map (state, val) over normal results, keep other exits."""
    out = []
    for e in _rets(rs):
        if e.kind == "ret":
            out += _rets(f(e.st, e.val))
        else:
            out.append(e)
    return out


def builtin(eng, path, fn, fid, b, st, fv, name, ga, args, aty, ln, subst, site, dty, ev):
    if name == "std::intrinsics::discriminant_value" and ga:
        v = eng.deref_val(st, args[0])
        t = ga[0]
        return [(st, N("disc", v, t))]
    def cv(s, f, a, tag=""):
        return eng.call_value(s, f, a, fid, b, ln, tag, path, fn, dty)

    m = method(name)
    eng.cur = dict(fn=path, fid=fid, blk=b, ln=ln)
    if name == "<indirect>":
        return cv(st, fv, args)
    if PANIC.search(name) or (dty == "!" and name not in eng.P.fns):
        eng.emit(st, A.Ev(kind="panic", name=name, args=args, fid=fid, fn=path, blk=b, ln=ln, site=site))
        if "resume_unwind" in name:
            return [Exit("unwind", st, None)]
        return []
    if name in eng.P.fns and not ("MiniArc" in name):
        return None
    # --- MiniArc: transparent owner of its payload
    if "MiniArc" in name:
        if m in ("new", "from"):
            return [(st, args[0])]
        if m == "deref" or m == "as_ref":
            return [(st, _deref(eng, st, args[0]))]
        if m == "clone":
            return [(st, eng.deref_val(st, args[0]))]
        if m == "drop":
            return [(st, UNIT)]
        if m == "ptr_eq":
            return [(st, EQ(N("ptr", eng.deref_val(st, args[0])), N("ptr", eng.deref_val(st, args[1]))))]
        return None
    if name.startswith("std::mem::"):
        if m == "drop":
            # a move into drop(): run the destructor here
            loc = "dropped%s" % b
            st.fr[fid][loc] = args[0]
            t = ga[0] if ga else ""
            out = eng.drop_value(path, fid, b, st, args[0], (("c", fid, loc), ()), aty[0] if aty else "", re.sub(r"<.*", "", aty[0]) if aty and aty[0] else t, ln, subst, [])
            for s in out:
                s.fr[fid].pop(loc, None)
            return [(s, UNIT) for s in out]
        if m == "forget":
            return [(st, UNIT)]
        if m in ("replace", "take"):
            r = args[0]
            old = eng.deref_val(st, r) if r.op == "ref" else eng.load(st, (("t", r), ()))
            new = args[1] if m == "replace" else N("default", site)
            eng.store(st, eng.ref_addr(r) if r.op == "ref" else (("t", r), ()), new)
            return [(st, old)]
    if m in ("call_once", "call_mut", "call") and ("std::ops::Fn" in name or "ops::function" in name):
        tup = eng.deref_val(st, args[1]) if len(args) > 1 else UNIT
        a = list(tup.a[3]) if isagg(tup) else ([] if tup.op == "unit" else [N("fld", tup, "0")])
        return cv(st, args[0], a)
    if "catch_unwind" in name and "FutureExt" not in name and "CatchUnwind" not in name:
        out = []
        s2 = st.copy()
        s2.note("closure panics at line %s" % ln)
        pe = A.Ev(kind="caught", name=name, args=args, fid=fid, fn=path, blk=b, ln=ln, site=site)
        for q in eng.emit(s2, pe):
            out.append(Exit("ret", q, ERR(N("payload", site))))
        for e in _rets(cv(st, args[0], [])):
            if e.kind == "unwind":
                for q in eng.emit(e.st, pe):
                    out.append(Exit("ret", q, ERR(N("payload", site))))
            elif e.kind == "ret":
                out.append(Exit("ret", e.st, OK(e.val)))
            else:
                out.append(e)
        return out
    if name.endswith("FutureExt::catch_unwind"):
        return [(st, AGG("catch_unwind", None, ("0",), (args[0],)))]
    if TRANSPARENT_NEW.search(name) and args:
        return [(st, args[0])]
    if m == "get_context":
        return [(st, N("cx"))]
    if m == "poll" and ("Future" in name or "futures" in name):
        return poll(eng, path, fn, fid, b, st, args, site, ln, dty, name)
    if "std::future::ready" in name:
        return [(st, AGG("ready", None, ("0",), (args[0],)))]
    if CLONE.search(name) and args:
        return [(st, eng.deref_val(st, args[0]))]
    if CMP.search(name):
        a = [eng.deref_val(st, x) for x in args]
        if m == "le":
            return [(st, LE(a[0], a[1]))]
        if m == "ge":
            return [(st, LE(a[1], a[0]))]
        if m == "lt":
            return [(st, NOT(LE(a[1], a[0])))]
        if m == "gt":
            return [(st, NOT(LE(a[0], a[1])))]
        if m == "eq":
            return [(st, EQ(a[0], a[1]))]
        if m == "ne":
            return [(st, NOT(EQ(a[0], a[1])))]
        if m == "cmp":
            return [(st, N("cmp", a[0], a[1]))]
        if m == "partial_cmp":
            return [(st, SOME(N("cmp", a[0], a[1])))]
        if m in ("max", "min"):
            if a[0].n > a[1].n:
                a = [a[1], a[0]]
            return [(st, a[0] if a[0] is a[1] else N(m, a[0], a[1]))]
    if name.startswith("std::option::Option") or ("<std::option::Option<T>" in name):
        r = option(eng, cv, st, m, args, site, ga, name)
        if r is not None:
            return r
    if name.startswith("std::result::Result") or "<std::result::Result<" in name:
        r = result(eng, cv, st, m, args, site, name)
        if r is not None:
            return r
    if "bool>::then" in name:
        out = []
        for s, x in eng.fork_bool(st, eng.deref_val(st, args[0])):
            if not x:
                out.append((s, NONE))
            elif m == "then_some":
                out.append((s, SOME(args[1])))
            else:
                out += then(cv(s, args[1], []), lambda s, v: [(s, SOME(v))])
        return out
    if DEREF.search(name) and args:
        return [(st, _deref(eng, st, args[0]))]
    # --- iterators
    if m == "into_iter" or m == "iter" and "array" in name:
        v = args[0]
        vv = eng.deref_val(st, v)
        if isagg(vv, "array"):
            els = vv.a[3]
            return [(st, N("agg", "arrayiter", None, ("0",), (N("list", els),)))]
        if eng.rule.unroll and isagg(vv) and vv.a[0] in ("std::ops::Range", "std::ops::RangeInclusive") and len(vv.a[3]) >= 2 \
                and vv.a[3][0].op == vv.a[3][1].op == "k" and 0 <= vv.a[3][1].a[0] - vv.a[3][0].a[0] <= 16:
            return [(st, _arr(K(i) for i in range(vv.a[3][0].a[0], vv.a[3][1].a[0] + ("Incl" in vv.a[0]))))]
        if isagg(vv, A.OPT):
            els = vv.a[3]
            return [(st, N("agg", "arrayiter", None, ("0",), (N("list", els),)))]
        return [(st, v if v.op == "ref" else vv)]
    if m == "next" and ("Iterator" in name or "::Iter" in name or "iter" in name.lower()):
        cell = args[0]
        v = eng.deref_val(st, cell)
        if isagg(v, "arrayiter") and cell.op == "ref":
            els = v.a[3][0].a[0]
            if not els:
                return [(st, NONE)]
            # find the innermost ref
            r = cell
            while eng.load(st, eng.ref_addr(r)).op == "ref":
                r = eng.load(st, eng.ref_addr(r))
            eng.store(st, eng.ref_addr(r), N("agg", "arrayiter", None, ("0",), (N("list", els[1:]),)))
            return [(st, SOME(els[0]))]
        src = v
        item = N("item", src if src.op != "agg" else N("it", site), site)
        s2 = st.copy()
        ad = src
        while ad.op == "pure" and len(ad.a[1]) == 1 and re.search(r"::(collect|into_iter|iter|iter_mut|rev|cloned|copied)$", ad.a[0]):
            ad = ad.a[1][0]
        if ad.op == "adapt" and len(ad.a) == 4 and ad.a[2] is not UNIT:
            item = ad.a[2]
            eng.kill_facts(s2, ad.a[3])
        eng.kill_facts(s2, item)
        e1 = A.Ev(kind="iter_end", name=name, args=(src,), fid=fid, fn=path, blk=b, ln=ln, site=site)
        e2 = A.Ev(kind="iter_item", name=name, args=(src, item), fid=fid, fn=path, blk=b, ln=ln, site=site, ty=dty)
        return [(q, NONE) for q in eng.emit(st, e1)] + [(q, SOME(item)) for q in eng.emit(s2, e2)]
    if "std::iter::Iterator::" in name or re.search(r"Iterator>::\w+$", name):
        if eng.rule.unroll and args:
            els = _unrolled(eng, st, args[0])
            if els is not None:
                r = _unroll(eng, st, m, els, args, cv)
                if r is not None:
                    return r
        if m in ("map", "filter", "filter_map", "flat_map", "inspect", "take_while", "skip_while", "partition",
                 "for_each", "any", "all", "find", "position", "fold", "find_map", "try_for_each"):
            src = eng.deref_val(st, args[0])
            clos = args[-1]
            item = N("item", src, site)
            eng.kill_facts(st, item)
            s0 = st.copy()
            cargs = [item] if m != "fold" else [args[1], item]
            outs = [(s0, N("adapt", m, src, UNIT))]
            if m in ("any", "find", "position", "find_map"):
                outs = [(s0, FALSE if m == "any" else NONE)]
            elif m == "all":
                outs = [(s0, TRUE)]
            elif m in ("for_each",):
                outs = [(s0, UNIT)]
            elif m == "partition":
                outs = [(s0, TUP(N("part", src, 1, site), N("part", src, 0, site)))]
            elif m == "fold":
                outs = [(s0, args[1])]
            e1 = A.Ev(kind="iter_end", name=name, args=(src,), fid=fid, fn=path, blk=b, ln=ln, site=site)
            e2 = A.Ev(kind="iter_item", name=name, args=(src, item), fid=fid, fn=path, blk=b, ln=ln, site=site)
            if m not in ("map", "filter", "filter_map", "flat_map", "inspect", "take_while", "skip_while"):
                eng.emit(s0, e1)
                eng.emit(st, e2)
            for e in _rets(cv(st, clos, cargs)):
                if e.kind != "ret":
                    outs.append(e)
                elif m == "partition":
                    for q, x in eng.fork_bool(e.st, e.val):
                        eng.emit(q, A.Ev(kind="iter_part", name=name, args=(src, item, K(x)), fid=fid, fn=path, blk=b, ln=ln, site=site))
                        outs.append((q, TUP(N("part", src, 1, site), N("part", src, 0, site))))
                elif m in ("any", "all"):
                    outs += [(q, K(x)) for q, x in eng.fork_bool(e.st, e.val)]
                elif m == "find":
                    for q, x in eng.fork_bool(e.st, e.val):
                        outs.append((q, SOME(item) if x else NONE))
                elif m == "for_each":
                    outs.append((e.st, UNIT))
                elif m == "fold":
                    outs.append((e.st, e.val))
                elif m == "find_map":
                    outs.append((e.st, e.val))
                else:
                    if m in ("filter", "filter_map"):
                        ek = A.Ev(kind="iter_filter", name=name, args=(src, item, e.val), fid=fid, fn=path, blk=b, ln=ln, site=site)
                        for q in eng.emit(e.st, ek):
                            outs.append((q, N("adapt", m, src, e.val)))
                    else:
                        outs.append((e.st, N("adapt", m, src, e.val)))
            if m in ("map", "filter_map"):
                # the items of the adapted iterator, if they have one shape
                pay = set()
                for o in outs[1:]:
                    if not isinstance(o, tuple):
                        continue
                    x = eng.deref_val(o[0], o[1].a[2])
                    if m == "map":
                        pay.add(x)
                    elif isagg(x) and x.a[1] == "Some":
                        pay.add(eng.deref_val(o[0], x.a[3][0]))
                    elif not (isagg(x) and x.a[1] == "None"):
                        pay.add(UNIT)
                x = pay.pop() if len(pay) == 1 else UNIT
                if any(y.op == "ref" for y in A.subs(x)):
                    x = UNIT
                outs = [(o[0], N("adapt", m, src, x, item)) if isinstance(o, tuple) else o for o in outs]
            return outs
    if name.startswith("std::vec::Vec") and m == "is_empty":
        return [(st, N("pure", "is_empty", (eng.deref_val(st, args[0]),)))]
    if m == "branch" and "Try" in name:
        out = []
        v = eng.deref_val(st, args[0])
        if "option" in name:
            for s, p in eng.opt(st, v):
                out.append((s, AGG("std::ops::ControlFlow", "Break", ("0",), (NONE,)) if p is None else
                            AGG("std::ops::ControlFlow", "Continue", ("0",), (p,))))
        else:
            for s, c, p in eng.res(st, v):
                out.append((s, AGG("std::ops::ControlFlow", "Continue", ("0",), (p,)) if c == "Ok" else
                            AGG("std::ops::ControlFlow", "Break", ("0",), (ERR(p),))))
        return out
    if m == "from_residual":
        return [(st, eng.deref_val(st, args[0]))]
    if m == "from_output":
        return [(st, SOME(args[0]) if "option" in name else OK(args[0]))]
    return None


def _arr(els):
    return N("agg", "arrayiter", None, ("0",), (N("list", tuple(els)),))


def _unrolled(eng, st, v):
    v = eng.deref_val(st, v)
    if isagg(v, "arrayiter"):
        return v.a[3][0].a[0]
    if isagg(v) and v.a[0] == "std::ops::Range" and v.a[3][0].op == v.a[3][1].op == "k" and \
            0 <= v.a[3][1].a[0] - v.a[3][0].a[0] <= 16:
        return tuple(K(i) for i in range(v.a[3][0].a[0], v.a[3][1].a[0]))
    return None


def _unroll(eng, st, m, els, args, cv):
    """Iterator adaptors over a known, short sequence."""
    if m == "enumerate":
        return [(st, _arr(TUP(K(i), x) for i, x in enumerate(els)))]
    if m in ("rev", "copied", "cloned", "by_ref", "into_iter"):
        return [(st, _arr(els[::-1] if m == "rev" else els))]
    if m in ("map", "for_each", "fold", "any", "all"):
        done = []
        acc0 = {"map": (), "for_each": UNIT, "fold": args[1], "any": FALSE, "all": TRUE}[m]
        live = [(st, acc0)]
        for x in els:
            nxt = []
            for s, acc in live:
                for e in _rets(cv(s, args[-1], [acc, x] if m == "fold" else [x])):
                    if e.kind != "ret":
                        done.append(e)
                    elif m == "map":
                        nxt.append((e.st, acc + (eng.deref_val(e.st, e.val),)))
                    elif m == "fold":
                        nxt.append((e.st, e.val))
                    elif m == "for_each":
                        nxt.append((e.st, UNIT))
                    else:
                        for q, y in eng.fork_bool(e.st, e.val):
                            (done if y == (m == "any") else nxt).append((q, K(y)))
            live = nxt
        return done + [(s, _arr(a) if m == "map" else a) for s, a in live]
    if m in ("min", "max", "sum") and els:
        r = els[0]
        for x in els[1:]:
            r = N("op", "Add", r, x) if m == "sum" else N(m, *sorted((r, x), key=lambda y: y.n))
        return [(st, r if m == "sum" else SOME(r))]
    return None


def _deref(eng, st, v):
    if v.op != "ref":
        return v
    c = eng.load(st, eng.ref_addr(v))
    if c.op == "agg" or c.op == "moved":
        return v
    return c


def _opt_ref(eng, st, v):
    """(addr or None, content) of an Option given by (reference to) value."""
    if v.op == "ref":
        r = v
        c = eng.load(st, eng.ref_addr(r))
        while c.op == "ref":
            r = c
            c = eng.load(st, eng.ref_addr(r))
        return eng.ref_addr(r), c
    return (("t", v), ()), eng.load(st, (("t", v), ()))


def option(eng, cv, st, m, args, site, ga, name):
    if not args:
        return None
    a0 = args[0]
    if m in ("as_ref", "as_mut", "as_deref", "as_deref_mut", "as_pin_mut", "iter", "iter_mut"):
        ad, c = _opt_ref(eng, st, a0)
        if isagg(c):
            if c.a[1] == "None":
                return [(st, NONE)]
            return [(st, SOME(eng.mkref((ad[0], ad[1] + (("f", "0"),)))))]
        return [(st, c)]
    if m in ("take", "replace", "insert", "get_or_insert_with", "get_or_insert"):
        ad, c = _opt_ref(eng, st, a0)
        if m == "take":
            eng.store(st, ad, NONE)
            return [(st, c)]
        if m == "replace":
            eng.store(st, ad, SOME(args[1]))
            return [(st, c)]
        if m == "insert":
            eng.store(st, ad, SOME(args[1]))
            return [(st, eng.mkref((ad[0], ad[1] + (("f", "0"),))))]
        out = []
        for s, p in eng.opt(st, c):
            if p is not None:
                out.append((s, eng.mkref((ad[0], ad[1] + (("f", "0"),))) if isagg(c) else p))
            else:
                rs = cv(s, args[1], []) if m.endswith("with") else [(s, args[1])]

                def ins(s, v):
                    eng.store(s, ad, SOME(v))
                    return [(s, eng.mkref((ad[0], ad[1] + (("f", "0"),))))]
                out += then(rs, ins)
        return out
    v = eng.deref_val(st, a0)
    if m in ("cloned", "copied"):
        if isagg(v) and v.a[1] == "Some":
            return [(st, SOME(eng.deref_val(st, v.a[3][0])))]
        return [(st, v)]
    if m in ("is_some", "is_none"):
        return [(s, K((p is not None) == (m == "is_some"))) for s, p in eng.opt(st, v)]
    if m in ("eq", "ne"):
        w = eng.deref_val(st, args[1])
        r = EQ(v, w)
        return [(st, r if m == "eq" else NOT(r))]
    if m == "clone":
        return [(st, v)]
    if m == "default":
        return [(st, NONE)]
    table = ("map", "and_then", "map_or", "map_or_else", "unwrap_or", "unwrap_or_else", "unwrap_or_default",
             "unwrap", "expect", "or", "or_else", "and", "filter", "ok_or", "ok_or_else", "is_some_and", "is_none_or",
             "unwrap_unchecked", "inspect", "zip", "xor", "flatten")
    if m not in table:
        return None
    out = []
    for s, p in eng.opt(st, v):
        none = p is None
        if m == "map":
            out += [(s, NONE)] if none else then(cv(s, args[1], [p]), lambda s, r: [(s, SOME(r))])
        elif m == "and_then":
            out += [(s, NONE)] if none else _rets(cv(s, args[1], [p]))
        elif m == "map_or":
            out += [(s, args[1])] if none else _rets(cv(s, args[2], [p]))
        elif m == "map_or_else":
            out += _rets(cv(s, args[1], [], "n")) if none else _rets(cv(s, args[2], [p], "s"))
        elif m == "unwrap_or":
            out.append((s, args[1] if none else p))
        elif m == "unwrap_or_else":
            out += _rets(cv(s, args[1], [])) if none else [(s, p)]
        elif m == "unwrap_or_default":
            out.append((s, default_of(eng, ga, site) if none else p))
        elif m in ("unwrap", "expect", "unwrap_unchecked"):
            if not none:
                out.append((s, p))
            else:
                eng.emit(s, A.Ev(kind="panic", name=name, args=args, site=site, **eng.cur))
        elif m == "or":
            out.append((s, args[1] if none else SOME(p)))
        elif m == "or_else":
            out += _rets(cv(s, args[1], [])) if none else [(s, SOME(p))]
        elif m == "and":
            out.append((s, NONE if none else args[1]))
        elif m in ("filter", "is_some_and", "is_none_or"):
            if none:
                out.append((s, NONE if m == "filter" else K(m == "is_none_or")))
            else:
                for e in _rets(cv(s, args[1], [p])):
                    if e.kind != "ret":
                        out.append(e)
                        continue
                    for q, x in eng.fork_bool(e.st, e.val):
                        out.append((q, (SOME(p) if x else NONE) if m == "filter" else K(x)))
        elif m == "ok_or":
            out.append((s, ERR(args[1]) if none else OK(p)))
        elif m == "ok_or_else":
            out += then(cv(s, args[1], []), lambda s, r: [(s, ERR(r))]) if none else [(s, OK(p))]
        elif m == "inspect":
            out += [(s, NONE)] if none else then(cv(s, args[1], [p]), lambda s, r: [(s, SOME(p))])
        elif m == "flatten":
            out.append((s, NONE if none else p))
        elif m == "zip":
            if none:
                out.append((s, NONE))
            else:
                for q, p2 in eng.opt(s, args[1]):
                    out.append((q, NONE if p2 is None else SOME(TUP(p, p2))))
        elif m == "xor":
            out.append((s, N("pure", "xor", (v, args[1]))))
    return out


def default_of(eng, ga, site):
    t = ga[0] if ga else ""
    if t in ("bool", "u8", "u16", "u32", "u64", "usize", "i32", "i64"):
        return K(0)
    return N("default", t)


def result(eng, cv, st, m, args, site, name):
    if not args:
        return None
    v = eng.deref_val(st, args[0])
    table = ("map", "map_err", "and_then", "ok", "err", "is_ok", "is_err", "unwrap", "expect", "unwrap_or",
             "unwrap_or_else", "unwrap_or_default", "expect_err", "unwrap_err", "or_else", "map_or", "map_or_else",
             "is_ok_and", "is_err_and", "as_ref", "as_mut", "clone")
    if m not in table:
        return None
    if m == "clone":
        return [(st, v)]
    if m in ("as_ref", "as_mut"):
        ad, c = _opt_ref(eng, st, args[0])
        if isagg(c):
            r = eng.mkref((ad[0], ad[1] + (("f", "0"),)))
            return [(st, OK(r) if c.a[1] == "Ok" else ERR(r))]
        return [(st, c)]
    out = []
    for s, c, p in eng.res(st, v):
        ok = c == "Ok"
        if m == "map":
            out += then(cv(s, args[1], [p]), lambda s, r: [(s, OK(r))]) if ok else [(s, ERR(p))]
        elif m == "map_err":
            out += then(cv(s, args[1], [p]), lambda s, r: [(s, ERR(r))]) if not ok else [(s, OK(p))]
        elif m == "and_then":
            out += _rets(cv(s, args[1], [p])) if ok else [(s, ERR(p))]
        elif m == "or_else":
            out += _rets(cv(s, args[1], [p])) if not ok else [(s, OK(p))]
        elif m == "ok":
            out.append((s, SOME(p) if ok else NONE))
        elif m == "err":
            out.append((s, NONE if ok else SOME(p)))
        elif m in ("is_ok", "is_err"):
            out.append((s, K(ok == (m == "is_ok"))))
        elif m in ("unwrap", "expect"):
            if ok:
                out.append((s, p))
            else:
                eng.emit(s, A.Ev(kind="panic", name=name, args=args, site=site, **eng.cur))
        elif m in ("unwrap_err", "expect_err"):
            if not ok:
                out.append((s, p))
        elif m == "unwrap_or":
            out.append((s, p if ok else args[1]))
        elif m == "unwrap_or_else":
            out += [(s, p)] if ok else _rets(cv(s, args[1], [p]))
        elif m == "unwrap_or_default":
            out.append((s, p if ok else N("default", site)))
        elif m == "map_or":
            out += _rets(cv(s, args[2], [p])) if ok else [(s, args[1])]
        elif m == "map_or_else":
            out += _rets(cv(s, args[2], [p], "o")) if ok else _rets(cv(s, args[1], [p], "e"))
        elif m in ("is_ok_and", "is_err_and"):
            if ok == (m == "is_ok_and"):
                out += _rets(cv(s, args[1], [p]))
            else:
                out.append((s, FALSE))
    return out


def poll(eng, path, fn, fid, b, st, args, site, ln, dty, name):
    p = args[0]
    if p.op == "ref":
        r = p
        c = eng.load(st, eng.ref_addr(r))
        while c.op == "ref":
            r = c
            c = eng.load(st, eng.ref_addr(r))
        ad = eng.ref_addr(r)
    else:
        ad, c = None, p
    return poll_value(eng, path, fn, fid, b, st, c, ad, site, ln, dty)


def poll_value(eng, path, fn, fid, b, st, c, ad, site, ln, dty, tag=""):
    while isagg(c) and isinstance(c.a[0], str) and c.a[0].endswith("AssertUnwindSafe"):
        c = c.a[3][0]
        if c.op == "ref":
            c = eng.deref_val(st, c)
    if c.op == "moved":
        # polled again after completion on an infeasible merged path
        return []
    if isagg(c, "ready"):
        if ad is not None:
            eng.store(st, ad, MOVED)
        return [(st, READY(c.a[3][0]))]
    if isagg(c, "catch_unwind"):
        out = []
        ev = A.Ev(kind="caught", name="FutureExt::catch_unwind", args=(c,), fid=fid, fn=path, blk=b, ln=ln, site=site)
        inner = c.a[3][0]
        iad = None
        if inner.op == "ref":
            # Pin<&mut F>
            iad = eng.ref_addr(inner)
            inner = eng.deref_val(st, inner)
        s2 = st.copy()
        s2.note("future panics, caught at line %s" % ln)
        for q in eng.emit(s2, ev):
            out.append(Exit("ret", q, READY(ERR(N("payload", site)))))
        for e in poll_value(eng, path, fn, fid, b, st, inner, ad if iad is None else iad, site, ln, "", tag + "c"):
            e = e if isinstance(e, Exit) else Exit("ret", e[0], e[1])
            if e.kind == "ret":
                if e.val is PENDING:
                    out.append(e)
                else:
                    out.append(Exit("ret", e.st, READY(OK(e.val.a[3][0]))))
            elif e.kind == "unwind":
                for q in eng.emit(e.st, ev):
                    out.append(Exit("ret", q, READY(ERR(N("payload", site)))))
            else:
                out.append(e)
        return out
    if isagg(c) and isinstance(c.a[0], tuple) and c.a[0][0] == "coroutine":
        cp = c.a[0][1]
        if eng.rule.inline(cp) and cp in eng.P.fns and eng.stack.count(cp) < 1:
            if ad is not None:
                eng.store(st, ad, MOVED)
            out = []
            for e in eng.call(cp, [c, UNIT], st, fid, "%sp%s" % (b, tag), dict(c.a[0][2])):
                if e.kind == "ret":
                    out.append(Exit("ret", e.st, READY(e.val)))
                else:
                    out.append(e)
            return out
        ev = A.Ev(kind="poll", name=cp, args=(c,), fid=fid, fn=path, blk=b, ln=ln, site=site)
        out = []
        for s in eng.emit(st, ev):
            v = N("call", cp, tuple(eng.deref_val(s, x) for x in c.a[3]), site)
            eng.kill_facts(s, v)
            if getattr(eng.rule, "opaque_yields", True):
                out.append((s.copy(), PENDING))
            out.append((s, READY(v)))
        return out
    # a leaf future (lock, listener, user future, ...)
    ev = A.Ev(kind="poll", name="<leaf>", args=(c,), fid=fid, fn=path, blk=b, ln=ln, site=site)
    out = []
    for s in eng.emit(st, ev):
        if eng.rule.unwinds(eng, ev):
            u = s.copy()
            u.note("polled future panics at line %s" % ln)
            out.append(Exit("unwind", u, None))
        m = eng.rule.model(eng, s, ev)
        if m is not None:
            out += [x if isinstance(x, Exit) else Exit("ret", x[0], x[1]) for x in m]
            continue
        v = N("await", c)
        if c.op == "call":
            t = eng.tty.get(c, "")
        eng.kill_facts(s, v)
        out.append(Exit("ret", s.copy(), PENDING))
        out.append(Exit("ret", s, READY(v)))
    return out
