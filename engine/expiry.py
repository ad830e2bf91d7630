"""Vocabulary of the Expiry callbacks."""
import re
import absint as A
from absint import N, NONE, isagg, subs

EXPIRY = re.compile(r"(^|::)Expiry(::<.*>|<.*>)?(>)?::(expire_after_\w+)$")


def is_expiry(t):
    return t.op == "call" and t.a[0].startswith("Expiry::")


def deadline_verdict(st, x):
    """The expiration time stored is the time of the operation plus what the callback
    returned, or cleared when it returned None."""
    if x is NONE:
        for a, v in st.facts.items():
            if a.op == "var" and is_expiry(a.a[0]) and v == "None":
                return None
            if a.op == "eq" and v is True and any(is_expiry(y) for y in a.a) and NONE in a.a:
                return None
        if any(a.op == "eq" and v is True and any(is_expiry(y) for y in subs(a)) for a, v in st.facts.items()):
            return None
        return "it clears the expiration time although the callback was not shown to return None"
    if isagg(x, A.OPT, "Some"):
        t = x.a[3][0]
        if t.op == "tadd":
            r = t.a[1]
            if r.op == "fld" and r.a[0].op == "as" and is_expiry(r.a[0].a[0]):
                call = r.a[0].a[0]
                at = call.a[1][2]
                if t.a[0] in subs(at):
                    return None
                return "the deadline is not counted from the time of the operation"
    return "the stored deadline is not the time of the operation plus the callback's result"
