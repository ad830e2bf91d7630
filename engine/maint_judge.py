"""What one maintenance episode owes.  judge(rule, eng, st, which, ep, how) -> [(aspect, ok, key, message)]"""
import absint as A
import rules_writes as W
from absint import N, isagg, subs, field, K
from rules_maint import info_of, W_cfg, norm

EXP = {"ent", "ttl", "tti"}


def conf(rule, st, name):
    """configuration assumed for this analysis, else established on this path"""
    return rule.cfg.get(name) or W_cfg(st, name)


def variant(st, t):
    for a, v in st.facts.items():
        if a.op == "var" and a.a[0] is t and not isinstance(v, tuple):
            return v
    return None


def same(x, e):
    """x is the entry e or its info"""
    return x is e or x is info_of(e)


def value_of(e):
    return field(e, "value") if isagg(e) else N("fld", e, "value")


def key_ok(k, caps, ck):
    return k is ck or any(k is c or c in subs(k) or k in subs(c) for c in caps) or ck in subs(k)


def idx(ep, kind, e=None):
    return [i for i, x in enumerate(ep) if x[0] == kind and (e is None or len(x) > 1 and same(x[1], e))]


def accounting(ep, e, from_timer):
    """obligations on the effects following the removal of entry e"""
    out = []
    adm = [x[2] for x in ep if x[0] == "adm" and same(x[1], e)]
    if any(x[0] == "push" for x in ep):
        out.append(("acct", True, "deferred", ""))
        return out
    cnts = [x for x in ep if x[0] == "cnt"]
    ec = [x for x in cnts if x[1] == "entry_count"]
    ws = [x for x in cnts if x[1] == "weighted_size"]
    if not adm:
        out.append(("acct", False, "untested", "the entry is removed from the map but it is never asked whether it had been admitted, so its node and weight stay accounted"))
        return out
    if adm[0]:
        sa = [x for x in ep if x[0] == "set_admitted" and same(x[1], e)]
        out.append(("acct", bool(sa) and sa[-1][2] is K(0), "set-admitted", "an admitted entry is removed without marking it as not admitted"))
        out.append(("acct", len(ec) == 1 and ec[0][2] == "-" and ec[0][3] is K(1), "entry-count",
                    "removing an admitted entry must lower the entry count by exactly one (%s)" % [(x[2], A.pp(x[3], 2)) for x in ec]))
        okw = len(ws) == 1 and ws[0][2] == "-" and is_weight_of(ws[0][3], e)
        out.append(("acct", okw, "weighted-size",
                    "removing an admitted entry must lower the weighted size by exactly its policy weight (%s)" % [(x[2], A.pp(x[3], 3)) for x in ws]))
        out.append(("acct", bool(idx(ep, "dq:unlink_ao", e)), "unlink-ao", "an admitted entry is removed but its node stays in the access-order queue"))
        out.append(("acct", bool(idx(ep, "dq:unlink_wo", e)), "unlink-wo", "an admitted entry is removed but its node stays in the write-order queue"))
    else:
        out.append(("acct", not cnts, "not-admitted", "an entry that was never admitted changes the counters when it is removed"))
        out.append(("acct", not idx(ep, "dq:unlink_ao", e) and not idx(ep, "dq:unlink_wo", e), "not-admitted-unlink",
                    "an entry that was never admitted is unlinked from a queue"))
    if not from_timer:
        tn = [x[2] for x in ep if x[0] == "tn" and same(x[1], e)]
        out.append(("timer", bool(idx(ep, "taketimer", e)) and bool(tn), "take-timer",
                    "the entry's timer node is not taken when the entry is removed: the timer wheel keeps a stale node"))
        if tn and tn[0] == "Some":
            out.append(("timer", bool([x for x in ep if x[0] == "deschedule"]), "deschedule",
                        "the removed entry's timer node is not descheduled from the timer wheel"))
    return out


def is_weight_of(w, e):
    i = info_of(e)
    return any(x.op == "call" and "policy_weight" in x.a[0] and any(y is i or y is e for y in x.a[1]) or
               x.op == "fld" and x.a[1] == "policy_weight" and (x.a[0] is i) for x in subs(w))


def judge_rem(rule, eng, st, ep, how):
    out = []
    kind, ck, v, caps, labs, held, hsh = ep[0]
    if kind == "drain":
        return accounting(ep, v, False)
    on_v = {k for w, k in labs if w == "v"}
    on_e = {k for w, k in labs if w == "e"}
    own = "same" in on_v and "gen=" in on_v
    pred = "phit" in on_e | on_v
    expired_v = on_v & EXP
    reason = expired_v | (on_v & {"va"})
    ok = bool(reason) or own or "la=" in on_v or pred and "lm=" in on_v
    out.append(("reason", ok, "reason", "an entry is removed although it has not been re-checked, at the moment of the removal, to be expired, invalidated, "
                "matched by a predicate since its last write, the unchanged victim that was selected, or the rejected candidate itself "
                "(established on the removed entry: %s, on the selected one: %s)" % (sorted(on_v), sorted(on_e))))
    # a removal by comparison of time stamps alone needs a clean entry when it was selected
    if not own:
        direct = "dirty" in on_e | on_v
        out.append(("dirty", direct or pred or "la=" in on_v and rule.selected_clean, "dirty",
                    "an entry is removed by maintenance without having checked that no write of it is still pending (is_dirty)"))
    # notification
    nn = conf(rule, st, "removal_notifier") or conf(rule, st, "notifier")
    nots = [x for x in ep if x[0] == "notify"]
    skipped = any(x[0] in ("off", "caught") for x in ep)
    tail_cancel = how == "cancel"
    if nn == "Some" and not skipped and not tail_cancel:
        out.append(("notify", len(nots) == 1, "notify-count", "the listener is called %d times for an entry removed by maintenance" % len(nots)))
    elif nn != "Some":
        out.append(("notify", not nots, "notify-none", "a listener call on a path without a listener"))
    elif len(nots) > 1:
        out.append(("notify", False, "notify-count", "the listener is called %d times for an entry removed by maintenance" % len(nots)))
    for x in nots:
        c = x[1].a[1] if isagg(x[1]) else None
        want = set()
        if on_e & EXP:
            want = {"Expired"}
        elif expired_v:
            want = {"Expired"} | ({"Explicit"} if "va" in on_e | on_v else set())
        elif "va" in on_e | on_v or pred:
            want = {"Explicit"}
        elif own or "la=" in on_v:
            want = {"Size"}
        out.append(("notify", c in want, "cause", "maintenance removes an entry because it is %s but reports the cause %s"
                    % (sorted(on_e | on_v), c)))
        out.append(("notify", x[3] is value_of(v), "value", "the listener is given a value other than the removed one (%s)" % A.pp(x[3], 3)))
        out.append(("notify", key_ok(norm(x[2]), caps, ck), "key", "the listener is given a key other than the removed entry's (%s)" % A.pp(x[2], 3)))
    # lock
    if conf(rule, st, "key_locks") == "Some":
        hk = [h for h in held if h.op == "keylock" and any(key_ok(h.a[0], caps, ck) for _ in (0,))]
        out.append(("lock", bool(hk), "lock", "maintenance changes the map while it does not hold the lock of that key, although a listener is set"))
        if hk and nots:
            first = next(i for i, x in enumerate(ep) if x[0] == "notify")
            rel = [i for i, x in enumerate(ep) if x[0] == "unlock" and x[1] is hk[0]]
            done = [i for i, x in enumerate(ep) if x[0] in ("notified", "caught")]
            out.append(("lock", not rel or rel[0] > (done[0] if done else first), "lock-notify", "the key's lock is released before the listener has been told"))
        if how in ("ret", "next") and hk:
            out.append(("lock", any(x[0] == "unlock" and x[1] is hk[0] for x in ep), "unlock", "the key's lock is still held when maintenance goes on to the next entry"))
    # bookkeeping
    if tail_cancel:
        return out
    if own:
        bad = [x for x in ep if x[0].startswith(("dq:", "cnt", "schedule", "reschedule")) or x[0] == "set_admitted"]
        out.append(("acct", not bad, "own", "removing the rejected candidate changes the queues or counters: %s" % [x[0] for x in bad]))
    else:
        # the expired timer event already consumed the timer node
        from_timer = any(x.op == "call" and "TimerNode::" in x.a[0] for c in caps for x in subs(c)) or rule.saw_advance and on_v == {"ent"}
        out += accounting(ep, v, from_timer)
    return out


def timer_update(rule, ep, e):
    out = []
    ex = [x[2] for x in ep if x[0] == "exp" and same(x[1], e)]
    tn = [x[2] for x in ep if x[0] == "tn" and same(x[1], e)]
    has = lambda k: any(x[0] == k for x in ep)
    if not ex or not tn:
        out.append(("timer", False, "timer-update", "an admitted entry's timer is not brought in line with its expiration time (expiration looked at: %s, timer node looked at: %s)" % (bool(ex), bool(tn))))
        return out
    s, t = ex[-1] == "Some", tn[-1] == "Some"
    if s and not t:
        out.append(("timer", has("schedule") and bool(idx(ep, "settimer", e)), "timer-schedule", "an entry with an expiration time is not put on the timer wheel (or its node is not remembered)"))
    elif s and t:
        out.append(("timer", has("reschedule") or has("deschedule") and has("schedule"), "timer-reschedule", "an entry whose expiration time may have changed is not rescheduled on the timer wheel"))
    elif t:
        out.append(("timer", has("deschedule") and bool(idx(ep, "settimer", e) or idx(ep, "taketimer", e)), "timer-deschedule", "an entry without expiration time stays on the timer wheel"))
    else:
        out.append(("timer", not has("schedule"), "timer-none", "an entry without expiration time is put on the timer wheel"))
    return out


def judge_op(rule, eng, st, ep, how):
    out = []
    op = ep[0][1]
    var = variant(st, op)
    if how == "cancel":
        return out
    cnts = [x for x in ep if x[0] == "cnt"]
    ec = [x for x in cnts if x[1] == "entry_count"]
    ws = [x for x in cnts if x[1] == "weighted_size"]
    f = lambda n: N("fld", N("as", op, var), n)

    def isf(t, n):
        return any(x.op == "fld" and x.a[1] == n and op in subs(x) for x in subs(t))
    if var == "Remove":
        e = N("fld", f("kv_entry"), "entry")
        for a, ok, k, m in accounting([x for x in ep if x[0] != "push"], e, False):
            out.append((a, ok, "remove-op:" + k, m.replace("the entry is removed from the map", "a removed entry is taken from the write log")))
        pg = [x for x in ep if x[0] == "set_policy_gen"]
        out.append(("gen", bool(pg) and isf(pg[-1][2], "entry_gen"), "remove-op:policy-gen", "a processed removal does not record its generation with the policy"))
        return out
    if var == "Hit":
        e = f("value_entry")
        out.append(("order", bool(idx(ep, "dq:move_to_back_ao", e)), "read-ao", "a processed read hit does not move the entry to the back of the access-order queue"))
        m = [v for a, v in st.facts.items() if a.op == "fld" and a.a[1] == "is_expiry_modified" and op in subs(a)]
        if m != [False]:
            out += [(a, ok, "read-" + k, t) for a, ok, k, t in timer_update(rule, ep, e)]
        out.append(("acct", not cnts, "read-count", "a processed read changes the counters"))
        return out
    if var == "Miss":
        out.append(("acct", not cnts, "read-count", "a processed read changes the counters"))
        return out
    if var != "Upsert":
        if len(ep) > 1 and any(x[0] not in ("rem", "adm", "exp", "tn") for x in ep):
            out.append(("acct", False, "op-unknown", "effects for a write operation whose kind was not looked at: %s" % [x[0] for x in ep]))
        return out
    e = f("value_entry")
    adm = [x[2] for x in ep if x[0] == "adm" and same(x[1], e)]
    sa = [x for x in ep if x[0] == "set_admitted" and same(x[1], e) and x[2] is K(1)]
    pg = [x for x in ep if x[0] == "set_policy_gen" and same(x[1], e)]
    tw = [x for x in ep if x[0] in ("schedule", "reschedule", "deschedule", "settimer", "taketimer")]
    if not adm:
        out.append(("acct", False, "upsert-untested", "a processed insertion is not checked for having been admitted before"))
        return out

    def pgen(why):
        out.append(("gen", bool(pg) and isf(pg[-1][2], "entry_gen"), "policy-gen", "%s without recording the operation's generation with the policy: the entry stays dirty and is never evicted" % why))
    if adm[0]:
        out.append(("acct", not ec, "update-count", "an update changes the entry count"))
        minus = [x for x in ws if x[2] == "-" and isf(x[3], "old_weight")]
        plus = [x for x in ws if x[2] == "+" and isf(x[3], "new_weight")]
        out.append(("acct", len(minus) == 1 and len(plus) == 1 and len(ws) == 2, "update-weight",
                    "an update must replace the old weight by the new one in the weighted size (%s)" % [(x[2], A.pp(x[3], 2)) for x in ws]))
        out += timer_update(rule, ep, e)
        out.append(("order", bool(idx(ep, "dq:move_to_back_ao", e)), "update-ao", "an update does not move the entry to the back of the access-order queue"))
        out.append(("order", bool(idx(ep, "dq:move_to_back_wo", e)), "update-wo", "an update does not move the entry to the back of the write-order queue"))
        out.append(("acct", not idx(ep, "dq:push_back_ao", e), "update-push", "an update pushes a second node"))
        pgen("an update is processed")
        return out
    pao, pwo = idx(ep, "dq:push_back_ao", e), idx(ep, "dq:push_back_wo", e)
    if sa or pao or pwo or cnts:
        out.append(("acct", bool(sa), "admit-flag", "an entry is put into the queues or counters without being marked as admitted"))
        out.append(("acct", len(ec) == 1 and ec[0][2] == "+" and ec[0][3] is K(1), "admit-count", "admitting an entry must raise the entry count by exactly one"))
        out.append(("acct", len(ws) == 1 and ws[0][2] == "+" and isf(ws[0][3], "new_weight"), "admit-weight",
                    "admitting an entry must raise the weighted size by exactly its weight (%s)" % [(x[2], A.pp(x[3], 2)) for x in ws]))
        out.append(("acct", len(pao) == 1, "admit-ao", "an admitted entry is pushed %d times to the access-order queue" % len(pao)))
        wo = conf(rule, st, "time_to_live") == "Some" or conf(rule, st, "invalidator") == "Some"
        if wo:
            out.append(("acct", len(pwo) == 1, "admit-wo", "with a time to live or predicate invalidation enabled, an admitted entry is pushed %d times to the write-order queue" % len(pwo)))
        out += timer_update(rule, ep, e)
        pgen("an entry is admitted")
        return out
    out.append(("acct", not tw, "reject-timer", "a rejected entry is put on the timer wheel"))
    tried = any(x[0] == "rem" and x[1] == "own" or x[0] == "tried" for x in ep)
    out.append(("acct", tried, "reject-remove", "an entry that is not admitted is left in the map: it takes part in no queue and counter and can never be evicted"))
    return out


def judge(rule, eng, st, which, ep, how):
    return judge_rem(rule, eng, st, ep, how) if which == "rem" else judge_op(rule, eng, st, ep, how)
