"""Maintenance-side rule: path-sensitive episodes.

An episode starts when maintenance removes an entry from the hash table, takes an
operation from the write log, or takes a removed entry out of a collection; it ends when
the next one starts or the function returns.  At its end the ordered effects of the
episode, together with what the path had established about the entry, are judged."""
import re
import absint as A
import lib
import rules_writes as W
from absint import N, NONE, isagg, subs, field, K, UNIT, OK, ERR, SOME
from rules_reads import is_main, unwrap, is_now, instant_of, exp_of
from lib import has_fld
from builtins_ import method

DEQ = re.compile(r"^<?common::concurrent::deques::Deques::<.*>::(\w+)$")
TW = re.compile(r"^<?common::timer_wheel::TimerWheel::<.*>::(schedule|reschedule|deschedule|enable|advance)$")
VE = re.compile(r"ValueEntry::<.*>::(take_timer_node|set_timer_node|timer_node_with_expiry_gen|unset_q_nodes|is_admitted|set_admitted|is_dirty|policy_weight)$")
INC = re.compile(r"FrequencySketch::increment$")
PUSH = re.compile(r"(SmallVec|Vec)::<.*>::push$")
SELECT = re.compile(r"common::deque::Deque::<.*>::(peek_front|peek_front_ptr)$|Iterator(<.*>)?(>| for .*>)?::next$")
SAT = re.compile(r"::(saturating|wrapping|checked)_(add|sub)$")


def info_of(e):
    return field(e, "info") if isagg(e) else N("fld", e, "info")


_nm = {}


def norm(t):
    """drop the collection an iterated item comes from"""
    r = _nm.get(t)
    if r is None:
        if t.op == "item":
            r = N("item", t.a[-1])
        elif any(x.op == "item" for x in subs(t)):
            r = N(t.op, *[norm(x) if isinstance(x, A.Node) else tuple(norm(y) if isinstance(y, A.Node) else y for y in x) if isinstance(x, tuple) else x for x in t.a])
        else:
            r = t
        _nm[t] = r
    return r


def owner(t):
    """EntryInfo term an instant or expiration term belongs to"""
    t = unwrap(t)
    if t.op == "call" and t.a[0] == "AtomicInstant::instant" and t.a[1][0].op == "fld":
        return t.a[1][0].a[0]
    if t.op == "call" and t.a[0] == "EntryInfo::expiration":
        return t.a[1][0]
    return None


def labels(atom, val):
    """[(info, kind, bool)]; for ent/ttl/tti/va True means alive"""
    out = []
    if atom.op == "var" and val == "None":
        t = atom.a[0]
        if exp_of(t):
            out.append((owner(t), "ent", True))
    elif atom.op == "le":
        x, y = atom.a
        pairs = []
        if is_now(y):
            pairs.append((x, not val))
        elif is_now(x) and not val:
            pairs.append((y, False))
        for d, alive in pairs:
            if exp_of(d):
                out.append((owner(d), "ent", alive))
            elif d.op == "tadd":
                du = unwrap(d.a[1])
                if du.op == "fld" and du.a[1] == "time_to_live" and instant_of(d.a[0], "last_modified"):
                    out.append((owner(d.a[0]), "ttl", alive))
                elif du.op == "fld" and du.a[1] == "time_to_idle" and instant_of(d.a[0], "last_accessed"):
                    out.append((owner(d.a[0]), "tti", alive))
        if instant_of(x, "valid_after") and (instant_of(y, "last_modified") or instant_of(y, "last_accessed")):
            out.append((owner(y), "va", bool(val)))
    elif atom.op == "eq":
        x, y = atom.a
        for p, q in ((x, y), (y, x)):
            if instant_of(p, "last_accessed"):
                out.append((owner(p), "la=", bool(val)))
            elif instant_of(p, "last_modified"):
                out.append((owner(p), "lm=", bool(val)))
            elif p.op == "call" and p.a[0] == "EntryInfo::entry_gen":
                out.append((p.a[1][0], "gen=", bool(val)))
        if x.op == "ptr" and y.op == "ptr":
            for p in (x.a[0], y.a[0]):
                out.append((p, "same", bool(val)))
    elif atom.op == "pure" and atom.a[0].endswith("::ptr_eq"):
        for p in atom.a[1]:
            out.append((p, "same", bool(val)))
    elif atom.op == "call" and atom.a[0] in ("EntryInfo::is_dirty", "EntryInfo::is_admitted"):
        out.append((atom.a[1][0], "dirty" if atom.a[0].endswith("dirty") else "adm", bool(val)))
    elif atom.op == "call" and atom.a[0] == "<user>" and val:
        out.append((None, "phit", True))
    return [o for o in out if o[1] == "phit" or o[0] is not None]


PARTIAL = re.compile(r"(^|::)(skip|skip_while|take|take_while|step_by|filter|filter_map|map_while)$")


class MaintRule(W.EffRule):
    wants_store = True
    cap = 60
    max_states = 3000
    select = True
    aspects = None
    selected_clean = True
    stubs = ()
    saw_advance = False

    def __init__(self, mf, judge, cfg=None, cancel=False):
        self.cfg = cfg or {}
        W.EffRule.__init__(self, mf, cancel=cancel)
        self.stop = tuple(x for x in self.stop if x not in ("do_run_pending_tasks", "common::timer_wheel"))
        self.judge = judge
        self.episodes = 0
        self.verdicts = {}       # key -> (msg, where, trail)
        self.obs = 0
        self.good = 0
        self.selected = 0

    # ts = (labels, held key locks, operation episode, removal episode)
    def init(self):
        return (frozenset(), (), (), ())

    def effects(self, st):
        return st.ts[2] + st.ts[3]

    def inline(self, p):
        if p in self.stubs:
            return False
        if "common::timer_wheel" in p or "common::concurrent::deques" in p or re.match(r"<?common::concurrent::arc::(?!.* as common::concurrent::AccessTime)", p):
            return False
        return W.EffRule.inline(self, p)

    def add(self, st, *e):
        if e[0] in ("found", "stamp", "disabled", "unchanged", "resnone", "ressome", "pe", "penone", "housekeep"):
            return
        labs, held, op, rem = st.ts
        if e[0] in ("lock", "unlock"):
            e = (e[0], norm(e[1]))
        if e[0] == "lock":
            held = held + (e[1],)
        elif e[0] == "unlock":
            held = tuple(x for x in held if x is not e[1])
        sub = e[1] if len(e) > 1 and isinstance(e[1], A.Node) else None
        torem = bool(rem)
        if rem and op and sub is not None and op[0][1] in subs(sub) and rem[0][2] not in subs(sub) and e[0] not in ("lock", "unlock"):
            torem = False
        if e[0] == "cnt" and e[2] == "+" and op:
            torem = False
        if not rem and not op and sub is not None:
            # an entry taken out of a list of removed entries by other means than a loop
            for x in subs(sub):
                if x.op == "fld" and x.a[1] == "entry" and x.a[0].op == "item":
                    rem = (("drain", N("fld", x.a[0], "key"), x, (), frozenset(), held, None),)
                    torem = True
                    break
        if torem:
            if rem[-1] != e:
                rem = rem + (e,)
        elif op and e[0] not in ("lock", "unlock"):
            if op[-1] != e:
                op = op + (e,)
        elif e[0] not in ("lock", "unlock"):
            self.loose(st, e)
        if len(rem) > self.cap or len(op) > self.cap:
            raise A.EngineError("episode too long: %s" % [x[0] for x in op + rem])
        st.ts = (labs, held, op, rem)

    def addlab(self, st, new):
        labs = st.ts[0]
        # a later answer replaces an earlier one
        labs = frozenset(l for l in labs if not any(l[0] is n[0] and l[1] == n[1] for n in new))
        for n in new:
            if n[2] == (n[1] not in ("ent", "ttl", "tti", "va", "dirty")):
                labs |= {n}
        if labs != st.ts[0]:
            st.ts = (labs,) + st.ts[1:]

    def labs(self, st):
        """everything this path has established about entries"""
        out = set(st.ts[0])
        for a, v in st.facts.items():
            if isinstance(v, tuple):
                continue
            for n in labels(a, v):
                if n[2] == (n[1] not in ("ent", "ttl", "tti", "va", "dirty")):
                    out.add(n)
        return out

    def droplab(self, st, site):
        labs = st.ts[0]
        keep = frozenset(l for l in labs if l[0] is None or not any(
            x.op in ("call", "chtval", "item", "wop", "elem") and x.a[-1] == site for x in subs(l[0])))
        if len(keep) != len(labs):
            st.ts = (keep,) + st.ts[1:]

    def verdict(self, eng, st, which, how, fn):
        self.episodes += 1
        ep = st.ts[3] if which == "rem" else st.ts[2]
        for asp, ok, k, msg in self.judge(self, eng, st, which, ep, how):
            self.verdict1(st, asp, ok, k, msg, fn, ep)

    def verdict1(self, st, asp, ok, k, msg, fn, ep=()):
        if self.aspects and asp not in self.aspects:
            return
        self.obs += 1
        if ok:
            self.good += 1
        elif k not in self.verdicts:
            self.verdicts[k] = (msg, fn or "", st.trail() + W.show(ep))

    def close_rem(self, eng, st, how, fn=None):
        labs, held, op, rem = st.ts
        if rem:
            self.verdict(eng, st, "rem", how, fn)
            if op:
                x = ("rem", "own" if ("v", "same") in rem[0][4] else "other")
                op = op + (x,) if x not in op else op
            st.ts = (frozenset(), held, op, ())

    def close(self, eng, st, how, fn=None):
        self.close_rem(eng, st, how, fn)
        labs, held, op, rem = st.ts
        if op:
            self.verdict(eng, st, "op", how, fn)
        st.ts = (frozenset(), held, (), ())

    def model(self, eng, st, ev):
        n = ev.name
        m = VE.search(n)
        if m and m.group(1) in ("take_timer_node", "set_timer_node", "timer_node_with_expiry_gen", "unset_q_nodes"):
            e = eng.deref_val(st, ev.args[0])
            k = m.group(1)
            if k == "unset_q_nodes":
                self.add(st, "unsetq", e)
                return [(st, UNIT)]
            if k == "set_timer_node":
                self.add(st, "settimer", e, eng.deref_val(st, ev.args[1]))
                return [(st, UNIT)]
            t = N("timer", e, ev.site)
            eng.kill_facts(st, t)
            eng.kill_facts(st, N("var", t))
            if k == "take_timer_node":
                self.add(st, "taketimer", e)
            return [(st, A.TUP(t, N("call", "timer_gen", (e,), ev.site)))]
        m = TW.match(n)
        if m and m.group(1) != "advance":
            k = m.group(1)
            if k == "enable":
                return [(st, UNIT)]
            a = [eng.deref_val(st, x) for x in ev.args[1:]]
            self.add(st, k, *a)
            if k == "schedule":
                v = N("call", n, tuple(a), ev.site)
                eng.kill_facts(st, v)
                return [(st, v)]
            return None
        m = DEQ.match(n)
        if m:
            k = m.group(1)
            a = [eng.deref_val(st, x) for x in ev.args]
            ents = [x for x in a if isent(x)]
            if k.startswith(("push_back", "move_to_back", "unlink")):
                self.add(st, "dq:" + re.sub(r"_from_deque|_in_deque|_node", "", k), *(ents or a[1:2]))
                return [(st, UNIT)]
            return None
        if W.RECV.search(n) and ev.ga and ("WriteOp" in ev.ga[0] or "ReadOp" in ev.ga[0]):
            self.close(eng, st, "next", ev.fn)
            op = N("wop", ev.site)
            eng.kill_facts(st, op)
            self.droplab(st, ev.site)
            e = st.copy()
            st.ts = (frozenset(), st.ts[1], (("op", op),), ())
            return [(st, OK(op)), (e, ERR(N("empty", ev.site)))]
        return W.EffRule.model(self, eng, st, ev)

    def on(self, eng, st, ev):
        k = ev.kind
        if k == "store" and ev.name in ("entry_count", "weighted_size"):
            b, v, cur = ev.args
            if has_fld(N("fld", b, ev.name), "counters") or b.op in ("arg", "fld", "agg", "out"):
                d = delta(v, cur)
                if d is None:
                    d = ("=", v)
                if d[1] is not K(0):
                    self.add(st, "cnt", ev.name, d[0], d[1])
            return None
        if k == "unremoved" and is_main(self.mf, eng.deref_val(st, ev.raw)):
            if st.ts[2]:
                self.close_rem(eng, st, "next", ev.fn)
                self.add(st, "tried")
            return None
        if k == "found" and is_main(self.mf, eng.deref_val(st, ev.raw)):
            self.droplab(st, ev.site)
            return None
        if k == "removed" and is_main(self.mf, eng.deref_val(st, ev.raw)):
            a = [eng.deref_val(st, x) for x in ev.args]
            keyc = eng.deref_val(st, ev.vals[2]) if len(ev.vals) > 2 else None
            caps = tuple(eng.deref_val(st, x) for x in keyc.a[3]) if keyc is not None and isagg(keyc) else ()
            caps = tuple(norm(x) for x in caps)
            i = info_of(a[1])
            elem = self.elem_of(st, caps, i)
            labs = frozenset(("v" if l[0] is i else "e", l[1]) for l in self.labs(st) if l[0] is i or l[0] is None or l in st.ts[0] or l[0] in elem)
            self.close_rem(eng, st, "next", ev.fn)
            _, held, op, _ = st.ts
            st.ts = (frozenset(), held, op, (("rem", a[0], a[1], caps, labs, held, norm(ev.ty)),))
            return None
        if k in ("inserted", "replaced"):
            return None
        if k == "iter_item":
            self.select_next(eng, st, ev)
            self.droplab(st, ev.site)
            if "KvEntry" in (ev.ty or "") + ev.name:
                it = ev.args[1]
                part = [x for x in subs(eng.deref_val(st, ev.args[0])) if x.op in ("call", "pure", "adapt") and PARTIAL.search(x.a[0])]
                if part:
                    self.verdict1(st, "acct", False, "drain-part", "only part of the removed entries is taken off the books (%s)" % part[0].a[0], ev.fn)
                st.ts = st.ts[:3] + ((("drain", field(it, "key") if isagg(it) else N("fld", it, "key"), N("fld", it, "entry"), (), frozenset(), st.ts[1], None),),)
            return None
        if k == "call":
            if INC.search(ev.name):
                self.add(st, "inc", eng.deref_val(st, ev.args[1]))
            self.droplab(st, ev.site)
            if TW.match(ev.name) and ev.name.endswith("::advance"):
                self.saw_advance = True
            if PUSH.search(ev.name) and len(ev.args) > 1:
                v = eng.deref_val(st, ev.args[1])
                if st.ts[3] and st.ts[3][0][2] in subs(v):
                    self.add(st, "push", v)
                self.pushed(eng, st, v, ev)
            if SELECT.search(ev.name):
                self.select_next(eng, st, ev)
        return W.EffRule.on(self, eng, st, ev)

    def select_next(self, eng, st, ev):
        self.close_rem(eng, st, "next", ev.fn)
        if st.ts[0]:
            st.ts = (frozenset(),) + st.ts[1:]

    def elem_of(self, st, caps, i):
        """EntryInfo terms the captured key comes from"""
        return {x for c in caps for x in subs(c)}

    def pushed(self, eng, st, v, ev):
        """an entry is selected for a later removal"""
        infos = {x.a[1][0].a[0] for x in subs(v) if x.op == "call" and x.a[0] == "AtomicInstant::instant" and x.a[1][0].op == "fld"}
        for i in infos:
            self.selected += 1
            self.verdict1(st, "dirty", any(l[0] is i and l[1] == "dirty" for l in self.labs(st)), "select-dirty",
                          "an entry is selected for removal without having checked that no write of it is still pending (is_dirty): %s, known: %s"
                          % (A.pp(v, 3), sorted((A.pp(l[0], 4) if l[0] is not None else "", l[1]) for l in st.ts[0])), ev.fn)

    def loose(self, st, e):
        if e[0] == "cnt":
            self.verdict1(st, "acct", False, "loose-counter", "the counters change outside of the processing of a write operation or a removal (%s %s)" % (e[1], A.pp(e[3], 3)), "")
        elif e[0] in ("set_admitted", "unsetq", "taketimer") or e[0].startswith("dq:unlink"):
            self.verdict1(st, "acct", False, "loose-" + e[0].replace("dq:", ""), "an entry's bookkeeping is undone (%s) although it was neither removed from the map nor taken from the write log" % e[0], "")

    def fact(self, eng, st, atom, val):
        if self.cfg and atom.op == "var":
            want = self.cfg.get(W.base_fld(atom.a[0]))
            if want is not None and (val[1] == frozenset([want]) if isinstance(val, tuple) else val != want):
                return []
        new = labels(atom, val)
        if new:
            self.addlab(st, new)
            for o, k, b in new:
                if k == "adm" and (st.ts[2] or st.ts[3]):
                    self.add(st, "adm", o, b)
        if atom.op == "aload" and W.fld_end(atom.a[0], "is_enabled") and not val:
            self.add(st, "off")
        if atom.op == "var" and exp_of(atom.a[0]):
            self.add(st, "exp", owner(atom.a[0]), val)
        if atom.op == "var" and atom.a[0].op == "timer":
            self.add(st, "tn", atom.a[0].a[0], val)
        return None

    def track(self, atom):
        if atom.op == "var":
            return atom.a[0].op == "wop"
        return False


def W_cfg(st, name):
    for a, v in st.facts.items():
        if a.op == "var" and W.base_fld(a.a[0]) == name and not isinstance(v, tuple):
            return v
    return None


def isent(x):
    return x.op in ("chtval", "item", "wop") or isagg(x) and field(x, "info") is not None or \
        x.op == "fld" and x.a[1] in ("value_entry", "entry") or x.op == "arg" and "entry" in x.a[0]


def delta(v, cur):
    """v as cur +/- d"""
    if v is cur:
        return ("+", K(0))
    if v.op == "op" and v.a[0] in ("Add", "Sub"):
        x, y = v.a[1], v.a[2]
        if x is cur:
            return ("+" if v.a[0] == "Add" else "-", y)
        if y is cur and v.a[0] == "Add":
            return ("+", x)
    if v.op == "pure":
        m = SAT.search(v.a[0])
        if m and len(v.a[1]) == 2 and v.a[1][0] is cur:
            return ("+" if m.group(2) == "add" else "-", v.a[1][1])
    return None


if __name__ == "__main__":
    import sys, prog, time
    P = prog.Program()
    seen = set()

    def judge(rule, eng, st, which, ep, how):
        k = tuple(A.pp(x, 2) if isinstance(x, A.Node) else str(x) for e in ep for x in e)
        if k not in seen:
            seen.add(k)
            print("  EP", which, how, {c: W_cfg(st, c) for c in ("notifier", "key_locks") if W_cfg(st, c)})
            for e in ep:
                print("      ", e[0], [A.pp(x, 4)[:150] if isinstance(x, A.Node) else str(sorted(x) if isinstance(x, frozenset) else x)[:250] for x in e[1:]])
        return []
    for root in sys.argv[1:]:
        for q in [p for p in P.fns if re.search(root, p) and P.fns[p]["kind"] == "fn"]:
            t = time.time()
            r = MaintRule(W.main_map_fields(P), judge, dict(notifier="Some", removal_notifier="Some", key_locks="Some", time_to_live="Some", invalidator="None"))
            eng = A.Engine(P, r, lib.BASE_MODELS)
            ex = eng.run(q)
            for e in ex:
                r.close(eng, e.st, e.kind, q)
            print(q, len(ex), "exits", eng.steps, "steps %.1f" % (time.time() - t), r.episodes)
