"""Write-side rule: for every path of a public write operation (and of the maintenance
removal routines) the ordered list of its effects on the hash table, the write log, the
key lock, the removal listener, the Expiry callbacks and the entry's metadata."""
import re
import absint as A
import lib
from absint import N, NONE, isagg, subs, field, K, UNIT, OK, ERR, AGG, SOME
from lib import BaseRule, has_fld
from rules_reads import main_map_fields, is_main, entry_site, classify, unwrap, instant_of
import builtins_
from expiry import EXPIRY, is_expiry, deadline_verdict
from builtins_ import method

ATOMNEW = re.compile(r"Atomic(U8|U16|U32|U64|Usize|Bool)?(::<\w+>|<\w+>)?::new$")
ATOM = re.compile(r"Atomic(U8|U16|U32|U64|Usize|Bool)?(::<\w+>|<\w+>)?::(load|store|fetch_add|swap)$")
SEND = re.compile(r"Sender::<.*>::(try_send|send)$")
RECV = re.compile(r"Receiver::<.*>::(try_recv|recv)$")
TSE = "crossbeam_channel::TrySendError"


def fld_end(t, name):
    return t.op == "fld" and t.a[1] == name


def base_fld(t):
    while t.op in ("as", "fld") and t.op != "fld":
        t = t.a[0]
    if t.op == "fld" and t.a[1] == "0" and t.a[0].op == "as":
        return base_fld(t.a[0].a[0])
    return t.a[1] if t.op == "fld" else None


def duration_verdict(st, name, a):
    """The remaining lifetime handed to an Expiry callback: the earliest of the per-entry
    expiration, last write + TTL and last access + TTI, minus the time of the operation."""
    if name == "expire_after_create":
        return None
    d = a[3]
    if d is NONE:
        for t, v in st.facts.items():
            if t.op == "var" and v == "None" and sources(t.a[0]) >= {"ent", "ttl", "tti"} - disabled(st):
                return None
        if {"ent", "ttl", "tti"} <= disabled(st, d):
            return None
        return "no remaining lifetime is passed although not every deadline was shown to be unset"
    src = sources(d)
    miss = {"ent", "ttl", "tti"} - src - disabled(st)
    if miss:
        return "the remaining lifetime passed ignores %s" % ", ".join(sorted(miss))
    x = d
    if not any(y is a[2] for y in subs(d)):
        return "the remaining lifetime is not measured from the time of the operation"
    if not any(y.op == "min" or y.op == "pure" and y.a[0].endswith("::min") for y in subs(d)) and len(src) > 1:
        return "the remaining lifetime is not the earliest deadline"
    return None


def sources(t):
    """deadlines a duration is computed from; last write + TTL and last access + TTI only"""
    out = set()
    for x in subs(t):
        if x.op == "call" and x.a[0] == "EntryInfo::expiration":
            out.add("ent")
        elif x.op == "tadd":
            d = unwrap(x.a[1])
            if d.op == "fld" and d.a[1] in ("time_to_live", "time_to_idle"):
                w = "last_modified" if d.a[1] == "time_to_live" else "last_accessed"
                if instant_of(x.a[0], w) or x.a[0].op == "now" or x.a[0].op == "phi":
                    out.add("ttl" if d.a[1] == "time_to_live" else "tti")
        elif x.op == "phi":
            out |= {"ent", "ttl", "tti"}
    return out


def disabled(st, t=None):
    """deadlines known to be unset on this path"""
    out = set()
    for a, v in st.facts.items():
        if a.op == "var" and v == "None":
            for s, l, ok in classify(a, v):
                if ok and l in ("ent", "ttl", "tti"):
                    out.add(l)
    return out


class EffRule(BaseRule):
    stop = ("housekeeper", "apply_reads_if_needed", "apply_reads_writes_if_needed", "do_run_pending_tasks",
            "run_pending_tasks", "common::timer_wheel", "retry_interrupted_ops", "frequency_sketch", "record_read_op", "log_panic")
    cht_retries = True
    cap = 40
    max_states = 4000
    opaque_yields = False
    wanted = None           # event kinds recorded
    cancel = False
    meta = True
    panics = False
    labels = False
    deadlines = False

    def __init__(self, mf, wanted=None, extra_stop=(), cancel=False):
        self.mf = mf
        if wanted:
            self.wanted = set(wanted)
        self.stop = self.stop + tuple(extra_stop)
        self.cancel = cancel
        self.opaque_yields = cancel
        self.seen = {}

    def inline(self, p):
        if p.endswith("RemovalNotifier") or "::RemovalNotifier::<" in p and p.endswith("::notify"):
            return True
        if "::notifier::" in p:
            return "log_panic" not in p
        return BaseRule.inline(self, p)

    def init(self):
        return (("labs", frozenset()),) if self.labels else ()

    def effects(self, st):
        return st.ts

    def setlabs(self, st, l):
        st.ts = (("labs", l),) + st.ts[1:]

    def cause(self, st, c):
        """Does the reported cause fit what this path has established about the entry?"""
        l = st.ts[0][1]
        mut = [e[0] for e in st.ts if e[0] in ("rep", "rem")]
        if l is None or not mut:
            return None
        dead = {x for x in ("ttl", "tti") if (x, False) in l}
        want = ["Expired"] if dead else []
        if mut[0] == "rep":
            if ("va", False) in l:
                want.append("Explicit")
            if not want:
                want = ["Replaced"]
        elif not dead:
            want = ["Explicit"]
        got = c.a[1] if isagg(c) else None
        if got not in want:
            return "it reports %s where %s applies (established: %s)" % (got, "/".join(want), sorted(l))
        if not dead and got in ("Replaced", "Explicit"):
            for x in ("ttl", "tti"):
                if (x, True) not in l:
                    return "it reports %s without having checked whether the entry had expired (%s)" % (got, x)
        return None

    def add(self, st, *e):
        if self.wanted is not None and e[0] not in self.wanted:
            return
        if st.ts and st.ts[-1] == e:
            return
        self.seen[e[0]] = self.seen.get(e[0], 0) + 1
        if len(st.ts) > self.cap:
            raise A.EngineError("effect list too long: %s" % [x[0] for x in st.ts])
        st.ts = st.ts + (e,)

    def model(self, eng, st, ev):
        n = ev.name
        if ev.kind == "user":
            f = eng.deref_val(st, ev.args[0])
            if base_fld(f) == "listener":
                a = [eng.deref_val(st, x) for x in ev.args[1:]]
                if self.labels:
                    self.add(st, "notify", a[2], a[0], a[1], self.cause(st, a[2]))
                    self.setlabs(st, None)
                else:
                    self.add(st, "notify", a[2], a[0], a[1])
                if ev.fn and ev.fn.startswith("future::"):
                    return [(st, N("lfut", ev.site))]
                self.add(st, "notified")
                return [(st, UNIT)]
            return None
        if ev.kind == "poll":
            c = eng.deref_val(st, ev.args[0])
            if c.op == "lfut":
                s2 = st.copy()
                self.add(st, "notified")
                return [(s2, A.PENDING), (st, A.READY(UNIT))]
            return None
        if n.endswith("::notify") and "EventListener" not in n and False:
            return None
        if n.startswith("common::time::") and method(n) == "instant":
            t = N("lastset", eng.deref_val(st, ev.args[0]))
            if t in st.heap:
                return [(st, SOME(st.heap[t]))]
            return None
        if ATOMNEW.search(n):
            c = N("cell", ev.site)
            st.heap[c] = eng.deref_val(st, ev.args[0])
            return [(st, c)]
        if ATOM.search(n):
            c = eng.deref_val(st, ev.args[0])
            m = method(n)
            if c.op == "cell" and c in st.heap:
                cur = st.heap[c]
                if m == "load":
                    return [(st, cur)]
                x = eng.deref_val(st, ev.args[1])
                st.heap[c] = x if m != "fetch_add" else eng.binop("Add", cur, x)
                return [(st, cur if m != "store" else UNIT)]
            if m == "load":
                v = N("aload", c, ev.site)
                eng.kill_facts(st, v)
                return [(st, v)]
            if m == "store" and fld_end(c, "is_enabled"):
                self.add(st, "disable", eng.deref_val(st, ev.args[1]))
                return [(st, UNIT)]
            return None
        if SEND.search(n):
            v = eng.deref_val(st, ev.args[1])
            k = None
            if isagg(v) and isinstance(v.a[0], str):
                k = v.a[0].rsplit("::", 1)[-1]
            elif ev.ga:
                k = re.sub(r"<.*", "", ev.ga[0]).rsplit("::", 1)[-1]
            if k in ("WriteOp", "ReadOp", "InterruptedOp"):
                if method(n) == "send":
                    self.add(st, "saved", v)
                    return [(st, OK(UNIT))]
                if k == "WriteOp":
                    full, dis = st.copy(), st.copy()
                    self.add(st, "sent", v)
                    return [(st, OK(UNIT)), (full, ERR(AGG(TSE, "Full", ("0",), (v,)))), (dis, ERR(AGG(TSE, "Disconnected", ("0",), (v,))))]
                if k == "ReadOp":
                    self.add(st, "read", v)
                    return [(st, OK(UNIT))]
            return None
        m = EXPIRY.search(n)
        if m:
            a = [eng.deref_val(st, x) for x in ev.args[1:]]
            v = N("call", "Expiry::" + m.group(4), tuple(a), ev.site)
            eng.kill_facts(st, v)
            eng.kill_facts(st, N("var", v))
            self.add(st, "expiry", m.group(4), a[0], a[1], a[2], duration_verdict(st, m.group(4), a), v)
            return [(st, v)]
        if "EntryInfo" in n:
            mm = method(n)
            if mm == "incr_entry_gen":
                i = eng.deref_val(st, ev.args[0])
                g = N("gen", i, ev.site)
                self.add(st, "gen", i, g)
                return [(st, g)]
            if mm == "set_expiration_time":
                self.add(st, "setexp", eng.deref_val(st, ev.args[0]), deadline_verdict(st, eng.deref_val(st, ev.args[1])))
                return [(st, N("egen", ev.site))]
            if mm == "expiration_state":
                i = eng.deref_val(st, ev.args[0])
                v = N("call", "EntryInfo::expiration", (i,), ev.site)
                eng.kill_facts(st, v)
                eng.kill_facts(st, N("var", v))
                return [(st, A.TUP(v, N("call", "EntryInfo::expiry_gen", (i,), ev.site)))]
            if mm in ("set_policy_weight", "set_admitted", "set_policy_gen"):
                self.add(st, mm, eng.deref_val(st, ev.args[0]), eng.deref_val(st, ev.args[1]))
                return [(st, UNIT)]
            if mm in ("entry_gen", "policy_weight", "is_admitted", "is_dirty"):
                i = eng.deref_val(st, ev.args[0])
                v = N("call", "EntryInfo::" + mm, (i,))
                for e in self.effects(st):
                    if e[0] == "gen" and mm == "entry_gen" and e[1] is i:
                        v = e[2]
                    elif e[0] == "set_policy_weight" and mm == "policy_weight" and e[1] is i:
                        v = e[2]
                eng.kill_facts(st, v)
                return [(st, v)]
        if re.search(r"key_lock::KeyLockMap::<.*>::key_lock$", n):
            return [(st, N("keylock", eng.deref_val(st, ev.args[1])))]
        if re.search(r"key_lock::KeyLock::<.*>::lock$", n):
            kl = eng.deref_val(st, ev.args[0])
            g = N("klguard", kl)
            self.add(st, "lock", kl)
            if n.startswith("future"):
                return [(st, AGG("ready", None, ("0",), (g,)))]
            return [(st, g)]
        return None

    def on(self, eng, st, ev):
        k = ev.kind
        if k in ("inserted", "replaced", "removed"):
            m = eng.deref_val(st, ev.raw)
            if is_main(self.mf, m):
                a = [eng.deref_val(st, x) for x in ev.args]
                self.add(st, {"inserted": "ins", "replaced": "rep", "removed": "rem"}[k], *(a + [ev.ty]))
                if k == "inserted" and self.labels:
                    self.setlabs(st, None)
        elif k == "found":
            if is_main(self.mf, eng.deref_val(st, ev.raw)) and ev.name not in ("insert_with_or_modify",):
                self.add(st, "found", ev.name)
        elif k == "caught":
            self.add(st, "caught")
        elif k == "call":
            n = ev.name
            if n.startswith("common::time::") and method(n) == "set_instant":
                t = eng.deref_val(st, ev.args[0])
                v = eng.deref_val(st, ev.args[1])
                if t.op == "fld":
                    self.add(st, "stamp", t.a[1], t.a[0], v)
                    st.heap[N("lastset", t)] = v
            elif self.hk(n):
                self.add(st, "housekeep", method(n))
        elif k == "poll" and ev.name != "<leaf>" and self.hk(ev.name):
            pass
        elif k == "drop":
            if ev.args[0].op == "klguard":
                self.add(st, "unlock", ev.args[0].a[0])
        return None

    def hk(self, n):
        return n.endswith(("::apply_reads_writes_if_needed", "::apply_reads_if_needed", "::try_run_pending_tasks", "::run_pending_tasks"))

    def fact(self, eng, st, atom, val):
        # is the listener switched off (after it has panicked)?
        if atom.op == "aload" and fld_end(atom.a[0], "is_enabled") and not val:
            self.add(st, "off")
        if atom.op == "eq" and val is True and has_fld(atom, "max_capacity") and any(x is K(0) for x in subs(atom)):
            self.add(st, "disabled")
        elif atom.op == "int" and val == 0 and has_fld(atom, "max_capacity"):
            self.add(st, "disabled")
        if atom.op == "eq" and val is True and any(is_expiry(x) for x in subs(atom)):
            self.add(st, "unchanged")
        if atom.op == "var" and val in ("Some", "None") and atom.a[0].op == "call" and atom.a[0].a[0] == "EntryInfo::expiration":
            self.add(st, "pe" if val == "Some" else "penone")
        if atom.op == "var" and is_expiry(atom.a[0]) and val in ("Some", "None"):
            self.add(st, "resnone" if val == "None" else "ressome")
        if self.labels and st.ts[0][1] is not None:
            if atom.op == "var" and val == "None" and base_fld(atom.a[0]) == "removal_notifier":
                self.setlabs(st, None)
                return None
            new = {(l, ok) for site, l, ok in classify(atom, val) if l in ("ttl", "tti", "va")}
            if new:
                self.setlabs(st, st.ts[0][1] | new)
        return None

    def key(self, ts):
        return ts

    def track(self, atom):
        # configuration facts the evaluation depends on
        if atom.op == "var":
            b = base_fld(atom.a[0])
            if self.deadlines and b in ("time_to_live", "time_to_idle"):
                return True
            return b in ("removal_notifier", "key_locks", "expiry", "weigher")
        return False


class RetryRule(EffRule):
    """Every interrupted operation taken from the queue is, before the next one is taken and
    on every exit, sent to the write log or put back; a notification that had been
    interrupted is completed before its operation is sent, or put back together with it."""
    opaque_yields = True

    def __init__(self, mf):
        EffRule.__init__(self, mf, wanted=("recv", "sent", "saved", "awaited"), cancel=True)
        self.stop = tuple(x for x in self.stop if x != "retry_interrupted_ops")
        self.taken = 0
        self.bad = []
        self.done = 0

    def model(self, eng, st, ev):
        if RECV.search(ev.name) and ev.ga and "InterruptedOp" in ev.ga[0]:
            self.close(eng, st, ev, "next")
            item = N("iop", ev.site)
            self.taken += 1
            eng.kill_facts(st, item)
            e = st.copy()
            e.ts = ()
            st.ts = (("recv", item),)
            return [(st, OK(item)), (e, ERR(N("empty", ev.site)))]
        return EffRule.model(self, eng, st, ev)

    def on(self, eng, st, ev):
        if ev.kind == "poll" and ev.name == "<leaf>":
            c = eng.deref_val(st, ev.args[0])
            if any(x.op == "iop" for x in subs(c)):
                st.note("awaits the interrupted notification")
        return EffRule.on(self, eng, st, ev)

    def track(self, atom):
        return atom.op == "var" and atom.a[0].op == "iop"

    def close(self, eng, st, ev, how):
        ts = st.ts
        if not ts or ts[0][0] != "recv":
            return
        self.done += 1
        item = ts[0][1]
        var = st.facts.get(N("var", item))
        sent = [e[1] for e in ts if e[0] == "sent"]
        saved = [e[1] for e in ts if e[0] == "saved"]
        if len(sent) + len(saved) != 1:
            self.bad.append((how, "is delivered %d times and put back %d times" % (len(sent), len(saved)), st.trail()))
            return
        for x in sent + saved:
            if not any(y.op == "iop" for y in subs(x)):
                self.bad.append((how, "is replaced by a different operation", st.trail()))
        if var == "CallEvictionListener":
            aw = any(e[0] == "awaited" for e in ts)
            if sent and not aw:
                self.bad.append((how, "is sent although its interrupted notification was not completed", st.trail()))
            for x in saved:
                if not aw and not (isagg(x) and x.a[1] == "CallEvictionListener"):
                    self.bad.append((how, "is put back without its interrupted notification", st.trail()))


class RetryRule2(RetryRule):
    def model(self, eng, st, ev):
        if ev.kind == "poll" and ev.name == "<leaf>":
            c = eng.deref_val(st, ev.args[0])
            if any(x.op == "iop" for x in subs(c)):
                s2 = st.copy()
                self.add(st, "awaited")
                return [(s2, A.PENDING), (st, A.READY(UNIT))]
        return RetryRule.model(self, eng, st, ev)


def show(ts):
    out = []
    for e in ts:
        out.append("%s(%s)" % (e[0], ", ".join(A.pp(x, 3) if isinstance(x, A.Node) else str(x)[:60] for x in e[1:])))
    return out


def run(P, root, **kw):
    r = EffRule(main_map_fields(P), **kw)
    eng = A.Engine(P, r, lib.BASE_MODELS)
    ex = eng.run(root)
    return r, eng, ex


if __name__ == "__main__":
    import sys, prog, time
    P = prog.Program()
    for root in sys.argv[1:]:
        rs = [p for p in P.fns if re.search(root, p) and P.fns[p]["kind"] == "fn"]
        for q in rs:
            t = time.time()
            r, eng, ex = run(P, q)
            print(q, len(ex), "exits", eng.steps, "steps %.1f" % (time.time() - t))
            for e in ex:
                print("  ", e.kind, A.pp(e.val, 4) if e.val is not None else "", {A.pp(a): v for a, v in e.st.facts.items() if r.track(a)})
                for x in show(e.st.ts):
                    print("      ", x[:230])

