"""C10: which wildcards are more specific, and for which requests a wildcard is valid.

The functions only compare, measure, shorten and extend lists of segments, so what they do to a list depends on which of
its segments are one of the five that matter and which are equal: each equation recovered from the MIR (the state the
loop starts in, its guard, what an iteration adds and leaves, the exits) is compared with its specification over every
arrangement of them in lists longer than any length or position it names."""

import itertools

from fw import *
from tabulate import HELPERS, Stuck, Unreadable, ev, holds, reach, summary

HC = "ic_http_certification"
PREFIX, EXACT, WILD, SEP = b"http_expr", b"<$>", b"<*>", b""
FEW = (SEP, b"a", b"b")
SEGMENTS = (PREFIX, EXACT, WILD, SEP, b"a", b"b")


def lists(most, alphabet=SEGMENTS):
    for n in range(most + 1):
        yield from itertools.product(alphabet, repeat=n)


# ---- what is expected

def stripped(p):
    p = list(p)
    if p and p[0] == PREFIX:
        p.pop(0)
    if p and p[-1] in (EXACT, WILD):
        p.pop()
    if len(p) > 1 and p[0] == SEP:
        p.pop(0)
    return tuple(p)


def valid(w, r):
    return r[:len(w)] == w or (w[-1:] == (SEP,) and r[:len(w) - 1] == w[:-1])


def goes_on(p, r):
    return len(p) > len(r) or p[-1:] != r[-1:]


def shorter(p):
    return p[:-1] if p[-1:] == (SEP,) else p[:-1] + (SEP,)


def reads(*ts):
    """Lists of this many segments show all that the terms can tell apart: no length or position they name is larger."""
    seen = set()
    for t in ts:
        for x in TM.t_all(t):
            seen.add(x)
            if x.op in ("mut", "call") and x.a[0] in HELPERS:
                for facts, ret, left in HELPERS[x.a[0]][1]:
                    seen |= TM.t_all(ret) | TM.t_all(left) | {y for f, _ in facts for y in TM.t_all(f)}
    n = max([abs(int(x.a[0])) for x in seen if x.op == "int"] + [1])
    if n > 4:
        raise Unreadable(f"a length or position of {n}")
    return n + 2


def spelled(p):
    return "/".join(x.decode() or '""' for x in p) if isinstance(p, tuple) and all(isinstance(x, bytes) for x in p) else str(p)


def disagreement(cases, got, want):
    """The first case in which they differ, and how many cases were compared."""
    n = 0
    for case in cases:
        n += 1
        try:
            g = got(*case)
        except Stuck as e:
            g = f"nothing ({e})"
        w = want(*case)
        if g != w:
            return n, f"for {' and '.join('[' + spelled(x) + ']' for x in case)}: {spelled(g) if not isinstance(g, bool) else g}, where {spelled(w) if not isinstance(w, bool) else w} is due"
    return n, None


def c10(c):
    c.rule("a wildcard is valid for what it prefixes", "is_wildcard_path_valid_for_request_path is true exactly if the request path starts with the wildcard path, or the wildcard path ends with a separator and the request path starts with what precedes it")
    c.rule("where the enumeration starts", "it starts with the requested path and the responding wildcard, both without the prefix, the terminator and a leading separator; a responding wildcard that is not valid for the request counts as empty")
    c.rule("when it ends", "it goes on exactly while the path has more segments than the responding wildcard or ends differently")
    c.rule("what a step lists", "each step lists the current path followed by the wildcard terminator, once")
    c.rule("what a step leaves", "each step drops a final separator, or else replaces the last segment by one")
    c.rule("nothing else is listed", "the function has no other results")
    f = c.fn(HC, "is_wildcard_path_valid_for_request_path")
    TM.LV.clear()
    e = c.run(f, names=["wildcard", "request"])
    W, R = (TM.mk("param", "", n, i) for i, n in ((1, "wildcard"), (2, "request")))

    def read(rule, inst, fn, cases, got, want):
        try:
            n, bad = disagreement(cases(), got, want)
        except Unreadable as x:
            n, bad = 0, f"not of the form this rule reads: {x}"
        c.ob(rule, inst, bad is None, fn, bad or "")
        return n
    n = read("a wildcard is valid for what it prefixes", "every pair of lists", f,
             lambda: itertools.product(lists(reads(e.ret), FEW), repeat=2),
             lambda w, r: ev(e.ret, {W: w, R: r}, {}), valid)
    c.count("a wildcard is valid for what it prefixes", "pairs of lists compared", n, 1600)

    f = c.fn(HC, "more_specific_wildcards_for")
    TM.LV.clear()
    HELPERS.clear()
    for g in reach(c, f):
        if g["args"] == 1 and not g.get("self"):
            HELPERS[g["path"]] = summary(c, g)
    e = c.run(f, lambda g: g["path"] in HELPERS, names=["requested", "responding"])
    P, Q = (TM.mk("param", "", n, i) for i, n in ((1, "requested"), (2, "responding")))
    lvs = dict(TM.LV)
    ret = [(g, t) for g, t in alts(e.ret)]
    shape = len(ret) == 1 and ret[0][1].op == "list"
    used = {x for _, t in ret for x in TM.subs(t) if x.op == "lv"}
    used |= {x for g in [e.facts] + [g for g, _ in ret] for t, _ in g for x in TM.subs(t) if x.op == "lv"}
    items = ret[0][1].a[0] if shape else ()
    shape = shape and len(items) == 1 and items[0][0] == "rep" and len(used) == 1
    c.ob("nothing else is listed", "one result, made by one loop over one path", shape, f,
         f"the results are {[show(t)[:300] for _, t in ret]}")
    if not shape:
        return
    lv = next(iter(used))
    _, item, guard = items[0]
    ways = lvs[lv]
    c.ob("nothing else is listed", "the path has one start and one step", len(ways) == 2, f, f"{len(ways)} definitions")
    if len(ways) != 2:
        return
    inside = [w for w in ways if any(x is lv for x in TM.subs(w))]
    start = [w for w in ways if w not in inside]
    c.ob("nothing else is listed", "one of them is the step", len(inside) == 1, f)
    if len(inside) != 1:
        return
    step, start = inside[0], start[0]
    n = read("where the enumeration starts", "the path", f, lambda: ((p,) for p in lists(reads(start))), lambda p: ev(start, {P: p, Q: ()}, {}), stripped)
    c.count("where the enumeration starts", "lists compared", n, 1500)
    # the responding wildcard is what the guard measures against: no join of it is assumed, the guard itself is compared
    firm = [(p, q) for p in lists(3, (PREFIX, WILD, SEP, b"a")) for q in lists(3, (PREFIX, WILD, SEP, b"a", b"b"))]

    def ends(p, q):
        w, r = stripped(p), stripped(q)
        return r if valid(r, w) else ()
    states = [x for x in lists(2, (SEP, b"a", b"b"))] + [(b"a", SEP, b"a"), (b"a", b"b", SEP), (b"a", b"a", b"a")]
    total = 0
    bad = None
    try:
        for k, (p, q) in enumerate(firm):
            for x in (states if c.tier == "thorough" or k % 7 == 0 else {ends(p, q), stripped(p), shorter(ends(p, q)), ends(p, q) + (SEP,), ends(p, q)[:-1]}):
                total += 1
                memo = {}
                env = {P: p, Q: q, lv: x}
                want = goes_on(x, ends(p, q))
                got = holds(guard, env, memo)
                out = holds(e.facts, env, memo)
                if got != want or out == want:
                    bad = f"at [{spelled(x)}], for the request [{spelled(p)}] and the responding wildcard [{spelled(q)}], it {'goes on' if got else 'ends'}, where it must {'go on' if want else 'end'}"
                    break
            if bad:
                break
    except Unreadable as x:
        bad = f"not of the form this rule reads: {x}"
    except Stuck as x:
        bad = f"a condition has no value: {x}"
    c.ob("when it ends", "every path against every responding wildcard", bad is None, f, bad or "")
    c.count("when it ends", "cases compared", total, 20000)
    n = read("what a step lists", "the item", f, lambda: ((x,) for x in lists(reads(item), FEW)), lambda x: ev(item, {lv: x}, {}), lambda x: x + (WILD,))
    c.count("what a step lists", "lists compared", n, 40)
    n = read("what a step leaves", "the next path", f, lambda: ((x,) for x in lists(reads(step), FEW)), lambda x: ev(step, {lv: x}, {}), shorter)
    c.count("what a step leaves", "lists compared", n, 40)


RULES = {"C10": c10}
