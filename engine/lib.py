"""Shared vocabulary of the rules: findings, normalised models for time/clock/entry
metadata, and helpers to recognise terms."""
import re, time
import absint as A
from absint import N, K, NONE, SOME, UNIT, TUP, Exit, isagg, EQ, subs, pp, Engine, Rule
import moka_models as M
from builtins_ import method


class Finding:
    def __init__(self, key, msg, where="", trail=()):
        self.key = key          # stable: no line numbers
        self.msg = msg
        self.where = where
        self.trail = list(trail)


class Result:
    """What one check analysed and found."""

    def __init__(self, pid):
        self.pid = pid
        self.findings = []
        self.obligations = 0
        self.discharged = 0
        self.samples = []
        self.fns = set()
        self.notes = []
        self.stats = {}
        self.floors = []
        self.keys = {}          # a place where each kind of obligation was discharged

    def ob(self, ok, key, msg, where="", trail=()):
        self.obligations += 1
        if ok:
            self.discharged += 1
            if key not in self.keys and len(self.keys) < 200:
                self.keys[key] = where
        elif key not in [f.key for f in self.findings]:
            self.findings.append(Finding(key, msg, where, trail))
        return ok

    def bad(self, key, msg, where="", trail=()):
        return self.ob(False, key, msg, where, trail)

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)

    def floor(self, name, got, want):
        """A rule that matched fewer sites than counted by hand has gone blind."""
        self.stats[name] = got
        if got < want:
            self.findings.append(Finding("floor:%s" % name,
                                         "anchor missing: %s matched %d site(s), expected at least %d" % (name, got, want)))

    def cover(self, eng):
        self.fns |= eng.visited_fns
        self.stats["calls analysed"] = self.stats.get("calls analysed", 0) + eng.visited_calls
        self.stats["block visits"] = self.stats.get("block visits", 0) + eng.steps


def modpath(p):
    return p.lstrip("<&")


TIME_STOP = ("common::time::", "common::frequency_sketch::", "common::timer_wheel::", "common::deque::",
             "common::concurrent::deques::", "common::concurrent::debug_counters", "cht::", "notification::",
             "common::builder_utils")


def is_time_fn(p):
    return modpath(p).startswith("common::time::")


def entry_of(t):
    """innermost cht entry term a term is about"""
    return [x for x in subs(t) if x.op in ("chtval", "chtold")]


def has_fld(t, name):
    for x in subs(t):
        if x.op == "fld" and x.a[1] == name:
            return True
    return False


def has_call(t, rx):
    r = rx if hasattr(rx, "search") else re.compile(rx)
    for x in subs(t):
        if x.op in ("call", "pure") and r.search(x.a[0]):
            return True
    return False


def time_model(eng, st, ev):
    """Clock reads and time arithmetic as terms."""
    name = ev.name
    p = modpath(name)
    if p.startswith("common::time::"):
        m = method(name)
        args = [eng.deref_val(st, a) for a in ev.args]
        if "Clock" in name and m in ("now", "fast_now"):
            v = N("now", ev.site)
            eng.kill_facts(st, v)
            return [(st, v)]
        if "Instant" in name and m in ("saturating_add", "checked_add"):
            v = N("tadd", args[0], args[1])
            return [(st, v if m == "saturating_add" else SOME(v))]
        if m in ("eq", "ne") and len(args) == 2:
            return [(st, EQ(*args) if m == "eq" else A.NOT(EQ(*args)))]
        if m in ("le", "lt", "ge", "gt", "eq", "ne", "cmp", "partial_cmp", "max", "min", "clone"):
            return None
        if "AtomicInstant" in name and m in ("instant", "is_set"):
            v = N("call", "AtomicInstant::instant", (args[0],), ev.site)
            eng.kill_facts(st, v)
            eng.kill_facts(st, N("var", v))
            if m == "is_set":
                return [(q, K(p is not None)) for q, p in eng.opt(st, v)]
            return [(st, v)]
        if "AtomicInstant" in name and m in ("set_instant", "clear"):
            return [(st, UNIT)]
        return [eng.opaque(st, name, ev.args, [], ev.site, ev.dty, pure=m in ("to_std_instant", "saturating_duration_since", "duration_since"))]
    return None


BASE_MODELS = [time_model, M.cht_model]


class BaseRule(Rule):
    """Analyse moka's own layers; leave data-structure internals opaque."""
    stop = ()
    only = None

    def inline(self, p):
        q = modpath(p)
        if q.startswith(TIME_STOP):
            return False
        for s in self.stop:
            if s in p:
                return False
        return True


def fnname(p):
    """Stable display name: module::Type::method."""
    return re.sub(r"::<[^>]*>", "", p)
