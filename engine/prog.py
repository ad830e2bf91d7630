"""Indexes over the dumped program."""
import json, re
from collections import defaultdict
import facts

STD_ENUMS = {
    "std::option::Option": ["None", "Some"],
    "std::result::Result": ["Ok", "Err"],
    "std::task::Poll": ["Ready", "Pending"],
    "std::ops::ControlFlow": ["Continue", "Break"],
}
ORDERING = {255: "Less", -1: "Less", 0: "Equal", 1: "Greater"}


class Program:
    def __init__(self, path=None):
        self.path = path or facts.facts_path()
        with open(self.path) as f:
            d = json.load(f)
        self.fns = {}
        for f in d["fns"]:
            self.fns[f["path"]] = f
        self.adts = {a["path"]: a for a in d["adts"]}
        self.impls = d["impls"]
        self.consts = {c["path"]: c for c in d["consts"]}
        self.enums = {}
        for p, vs in d["enums"]:
            self.enums[p] = {v[2]: v[1] for v in vs}
            self.enums[p].update({v[0]: v[1] for v in vs if v[0] not in self.enums[p]})
        for p, vs in STD_ENUMS.items():
            self.enums.setdefault(p, dict(enumerate(vs)))
        self.enums["std::cmp::Ordering"] = dict(ORDERING)
        for a in d["adts"]:
            if a["kind"] == "enum" and a["path"] not in self.enums:
                self.enums[a["path"]] = {i: v[0] for i, v in enumerate(a["variants"])}
        # trait method implementations: (trait, method) -> {self head -> fn path}
        self.trait_impls = defaultdict(dict)
        for i in self.impls:
            if i["trait"]:
                for n, p in i["items"]:
                    self.trait_impls[(i["trait"], n)][i["head"] or i["self"]] = p
        self.drops = {a["path"]: a["drop"] for a in d["adts"] if a["drop"]}
        self.callees = {}
        self._reach = {}
        for p, f in self.fns.items():
            self.callees[p] = self._callees(f)
        self.callers = defaultdict(set)
        for p, cs in self.callees.items():
            for c in cs:
                self.callers[c].add(p)

    # -- names -----------------------------------------------------------
    def callee_name(self, op):
        if op[0] != "k" or "fn" not in op[1]:
            return None
        k = op[1]
        return k.get("res") or k["fn"]

    def _callees(self, f):
        out = set()
        for b in f["blocks"]:
            for s in b["s"]:
                if s[0] == "=":
                    self._ops_in_rv(s[2], out)
            t = b["t"]
            if t["k"] == "call":
                for o in [t["f"]] + t["a"]:
                    self._op_fn(o, out)
            elif t["k"] == "drop":
                if t.get("h") in self.drops:
                    out.add(self.drops[t["h"]])
        return out

    def _op_fn(self, o, out):
        if o[0] == "k" and "fn" in o[1]:
            k = o[1]
            if k.get("res"):
                out.add(k["res"])
            else:
                out.add(k["fn"])
                if k.get("trait"):
                    m = k["fn"].rsplit("::", 1)[1]
                    for p in self.trait_impls.get((k["trait"], m), {}).values():
                        out.add(p)

    def _ops_in_rv(self, rv, out):
        k = rv[0]
        if k == "agg":
            if rv[1][0] in ("closure", "coroutine"):
                out.add(rv[1][1])
            for o in rv[2]:
                self._op_fn(o, out)
        elif k in ("use", "rep"):
            self._op_fn(rv[1], out)
        elif k == "cast":
            self._op_fn(rv[2], out)

    def reaches(self, targets):
        """Set of local fns from which some fn satisfying `targets(name)` is reachable."""
        seen = set()
        work = []
        rev = defaultdict(set)
        for p, cs in self.callees.items():
            for c in cs:
                rev[c].add(p)
        hit = {c for c in rev if targets(c)} | {p for p in self.fns if targets(p)}
        work = list(hit)
        seen = set(hit)
        while work:
            x = work.pop()
            for p in rev.get(x, ()):
                if p not in seen:
                    seen.add(p)
                    work.append(p)
        return seen

    def closure(self, roots):
        seen = set()
        work = list(roots)
        while work:
            x = work.pop()
            if x in seen or x not in self.fns:
                continue
            seen.add(x)
            work.extend(self.callees[x])
        return seen

    def find(self, rx):
        r = re.compile(rx)
        return sorted(p for p in self.fns if r.search(p))

    def line(self, f):
        return "%s:%d" % tuple(self.fns[f]["span"]) if f in self.fns else f
