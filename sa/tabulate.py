"""Reads the terms an analysis recovers as equations over small values: lists, options, enumerations and records.

Nothing of the program is run: a rule compares each recovered equation with its specification case by case, over cases
that show everything the equation can tell apart."""

from fw import *


class Unreadable(Exception):
    pass


class Stuck(Exception):
    """The value does not exist: an index that is out of range, an unwrap of nothing."""


class Node(dict):
    """A record that is itself and no other."""
    __hash__ = object.__hash__

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


def loose(t, memo):
    """The elements a term stands for that no list within it runs over."""
    k = t.n
    if k not in memo:
        out = set()
        if t.op == "elem":
            out.add(t)
        elif t.op not in ("list", "all", "lv"):
            for y in TM.children(t):
                out |= loose(y, memo)
        memo[k] = frozenset(out)
    return memo[k]


LOOSE = {}
HELPERS = {}        # functions of one argument, evaluated by themselves
SUMMARY = {}


def reach(c, f):
    seen, todo = {}, [f]
    while todo:
        for r, _ in callees(todo.pop()):
            g = c.prog.fns.get(r.get("rid") or r["id"])
            if g and g["id"] not in seen and g["crate"] == f["crate"]:
                seen[g["id"]] = g
                todo.append(g)
    return list(seen.values())


def summary(c, g):
    """What a helper returns and leaves in its argument, path by path."""
    if g["id"] not in SUMMARY:
        TM.LV.clear()
        x = TM.mk("param", "", "path", 1)
        SUMMARY[g["id"]] = x, [(r.facts, r.ret, r.mem.get(("obj", x), x)) for r in c.paths(g, lambda h: h["id"] == g["id"], names=["path"])]
    return SUMMARY[g["id"]]


def ev(t, env, memo):
    if t in env:
        return env[t]
    if t not in memo:
        memo[t] = _ev(t, env, memo)
    return memo[t]


def holds(g, env, memo):
    """All of g hold.  What has no value does not matter where something else already fails."""
    stuck = None
    free, some = set(), []
    for t, v in g:
        runs = loose(t, LOOSE) - set(env)
        if runs:            # said of an element that is not named: there is one
            free |= runs
            some.append((t, v))
            continue
        try:
            if t.op == "all":
                if not every(t, v, env):
                    return False
            elif bool(ev(t, env, memo)) != v:
                return False
        except Stuck as x:
            stuck = x
    if stuck:
        raise stuck
    return not some or any(holds(some, e, {}) for e in bindings(free, env))


def bindings(runs, env):
    """Elements of several lists are taken together, as far as the shortest goes."""
    runs = sorted(runs, key=lambda x: x.n)
    for vs in zip(*[lis(ev(x.a[0], env, {})) for x in runs]):
        yield {**env, **dict(zip(runs, vs))}


def every(t, v, env):
    runs = loose(t.a[0], LOOSE) - set(env)
    if not runs:
        raise Unreadable(show(t)[:200])
    return all(bool(ev(t.a[0], e, {})) == v for e in bindings(runs, env))


def lis(x):
    if not isinstance(x, tuple):
        raise Unreadable(f"{x!r} is not a list")
    return x


def within(vals, E):
    xs, r = lis(E(vals[0])), vals[1]
    if r.op != "adt" or "Range" not in r.a[0] or "Inclusive" in r.a[0]:
        raise Unreadable(show(r)[:200])
    d = dict(zip(r.a[2], r.a[3]))
    lo = E(d["start"]) if "start" in d else 0
    hi = E(d["end"]) if "end" in d else len(xs)
    if lo > hi or hi > len(xs):
        raise Stuck(f"the range {lo}..{hi} of {len(xs)}")
    return xs, (lo, hi)


def _ev(t, env, memo):
    op, a = t.op, t.a
    E = lambda x: ev(x, env, memo)
    if op == "list":
        out = []
        for kind, x, g in a[0]:
            if kind == "it":
                out.append(E(x))
                continue
            runs = loose(x, LOOSE)
            if kind == "sp" or len(runs) > 1:
                raise Unreadable(show(t)[:200])
            if not runs:
                if holds(g, env, memo):
                    out.append(E(x))
                continue
            e = next(iter(runs))
            for v in lis(E(e.a[0])):
                env2 = dict(env)
                env2[e] = v
                m = {}
                if holds(g, env2, m):
                    out.append(ev(x, env2, m))
        return tuple(out)
    if op == "bytes":
        return bytes.fromhex(a[0])
    if op == "str":
        return a[0].encode()
    if op == "int":
        return int(a[0])
    if op == "bool":
        return bool(a[0])
    if op == "len":
        return len(E(a[0]))
    if op == "at":
        xs, i = lis(E(a[0])), E(a[1])
        if not -len(xs) <= i < len(xs):
            raise Stuck(show(t)[:80])
        return xs[i]
    if op == "adt":
        if a[1] and a[1] != last(a[0]):
            return (a[1],) + tuple(E(x) for x in a[3])
        return dict(zip(a[2], [E(x) for x in a[3]]))
    if op == "eq":
        return E(a[0]) == E(a[1])
    if op == "lt":
        return E(a[0]) < E(a[1])
    if op == "is":
        x = E(a[0])
        return x[:1] == (a[1],)
    if op == "or":
        stuck = None
        for d in a[0]:
            try:
                if holds(d, env, memo):
                    return True
            except Stuck as x:
                stuck = x
        if stuck:
            raise stuck
        return False
    if op == "phi":
        for g, v in a[0]:
            try:
                if holds(g, env, memo):
                    return E(v)
            except Stuck:
                continue
        raise Stuck("no alternative of a join applies")
    if op == "ovf":
        x, y = E(a[1]), E(a[2])
        r = {"Add": x + y, "Sub": x - y, "Mul": x * y}[a[0]]
        return not 0 <= r < 2 ** 64
    if op == "bin":
        x, y = E(a[1]), E(a[2])
        r = {"Add": x + y, "Sub": x - y, "Mul": x * y}.get(a[0])
        if r is None:
            raise Unreadable(show(t)[:200])
        if r < 0:
            raise Stuck(show(t)[:80])
        return r
    if op in ("mut", "call") and a[0] in HELPERS:
        x, exits = HELPERS[a[0]]
        env2 = {x: E(a[-1][0])}
        for facts, ret, left in exits:
            m = {}
            if holds(facts, env2, m):
                return ev(left if op == "mut" else ret, env2, m)
        raise Unreadable(f"no exit of {a[0]} for {env2[x]}")
    if op == "mut":
        n, i, vals = last(a[0]), a[1], a[2]
        if i == 0:
            xs = lis(E(vals[0]))
            if n == "pop":
                return xs[:-1]
            if n == "remove":
                k = E(vals[1])
                if not 0 <= k < len(xs):
                    raise Stuck(show(t)[:80])
                return xs[:k] + xs[k + 1:]
            if n == "truncate":
                return xs[:E(vals[1])]
            if n == "clear":
                return ()
            if n == "split_off":
                return xs[:E(vals[1])]
            if n == "drain":
                xs, (lo, hi) = within(vals, E)
                return xs[:lo] + xs[hi:]
    if op == "call":
        n, vals = last(a[0]), a[1]
        if n == "starts_with":
            x, y = lis(E(vals[0])), lis(E(vals[1]))
            return x[:len(y)] == y
        if n == "ends_with":
            x, y = lis(E(vals[0])), lis(E(vals[1]))
            return len(x) >= len(y) and x[len(x) - len(y):] == y
        if n in ("eq", "addr_eq") and "ptr" in a[0]:
            return E(vals[0]) == E(vals[1])
        if n == "concat":
            return tuple(y for x in vals for y in lis(E(x)))
        if n == "pop":
            x = lis(E(vals[0]))
            return ("Some", x[-1]) if x else ("None",)
        if n == "slice":
            xs, (lo, hi) = within(vals, E)
            return xs[lo:hi]
        if n == "tail":
            x, k = lis(E(vals[0])), E(vals[1])
            if k > len(x):
                raise Stuck(show(t)[:80])
            return x[k:]
    if op == "fld":
        x = E(a[0])
        if isinstance(x, (dict, Node)):
            if a[2] not in x:
                raise Unreadable(show(t)[:200])
            return x[a[2]]
        if a[1] and isinstance(x, tuple) and isinstance(x[0], str):
            if x[0] != a[1]:
                raise Stuck(show(t)[:80])
            return x[1 + int(a[2])]
    if op == "upd":
        x, (where, name) = E(a[0]), a[1]
        if isinstance(x, dict) and where is None:
            return {**x, name: E(a[2])}
    if op == "param":
        raise Unreadable(f"{show(t)} has no value")
    raise Unreadable(f"{op}: {show(t)[:200]}")
