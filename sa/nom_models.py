"""Models of nom 7 combinators: what a parser built from them accepts and returns."""

import json

from terms import *  # noqa: F403

WIDTH = {"be_u8": 1, "u8": 1, "be_u16": 2, "be_u24": 3, "be_u32": 4, "be_u64": 8, "be_u128": 16, "le_u16": 2, "le_u32": 4, "le_u64": 8}
PAIR = 2


def fld(t, n):
    if t.op == "adt":
        try:
            return t.a[3][t.a[2].index(n)]
        except ValueError:
            pass
    return mk("fld", t, None, n)


def parsed(rest, v):
    return ok(tup(rest, v))


def nname(p):
    """(name, arguments) of a nom parser value."""
    if p.op == "call" and p.a[0].startswith("nom::"):
        return p.a[0].split("::")[-1], p.a[1]
    if p.op == "fn":
        c = json.loads(p.a[0])
        if c["path"].startswith("nom::"):
            return c["path"].split("::")[-1].split("<")[0], ()
    return None, ()


def skip(i, n):
    """What is left of input i after n bytes."""
    return call("skip", i, n)


def nrun(ctx, p, i, g=frozenset(), depth=0):
    """[(guards, 'Ok', rest, value) or (guards, 'Err', None, error)] of parser p on input i."""
    p = ctx.val(p)
    name, a = nname(p)

    def seq(x, k):
        """x's successes go on with k(guards, rest, value)."""
        out = []
        for g2, var, r, v in x:
            out += k(g2, r, v) if var == "Ok" else [(g2, var, r, v)]
        return out

    def basic(what, n, val):
        c = is_fact(call("read", i, n), "Ok")
        return [(g | {c}, "Ok", skip(i, n), val), (g | {neg(c)}, "Err", None, call("nomerr", i))]

    if name in WIDTH:
        w = mk("int", str(WIDTH[name]))
        return basic(name, w, call("le" if name.startswith("le_") else "be", i, w))
    if name == "take" and len(a) == 1:
        return basic(name, a[0], call("prefix", i, a[0]))
    if name == "eof":
        c = (mkeq(mk("int", "0"), call("len", i)), True)
        return [(g | {c}, "Ok", i, i), (g | {neg(c)}, "Err", None, call("nomerr", i))]
    if name in ("tag", "char") and len(a) == 1:
        c = (call("begins", i, a[0]), True)
        return [(g | {c}, "Ok", call("after", i, a[0]), a[0]), (g | {neg(c)}, "Err", None, call("nomerr", i))]
    if name == "map" and len(a) == 2:
        return seq(nrun(ctx, a[0], i, g), lambda g2, r, v: [(g2 | g3, "Ok", r, y) for g3, y in ctx.invoke_maybe(a[1], [v], g2)])
    if name in ("map_res", "map_opt") and len(a) == 2:
        def k(g2, r, v):
            out = []
            for g3, y in ctx.invoke_maybe(a[1], [v], g2):
                for g4, var, z in (ctx.res(y) if name == "map_res" else ctx.opt(y)):
                    gg = g2 | g3 | g4
                    out.append((gg, "Ok", r, z) if var in ("Ok", "Some") else (gg, "Err", None, call("nomerr", i)))
            return out
        return seq(nrun(ctx, a[0], i, g), k)
    if name == "verify" and len(a) == 2:
        def kv(g2, r, v):
            out = []
            for g3, y in ctx.invoke_maybe(a[1], [v], g2):
                for g4, b in ctx.eng.truth(y) if hasattr(ctx.eng, "truth") else [(frozenset({(y, True)}), True), (frozenset({(y, False)}), False)]:
                    out.append((g2 | g3 | g4, "Ok", r, v) if b else (g2 | g3 | g4, "Err", None, call("nomerr", i)))
            return out
        return seq(nrun(ctx, a[0], i, g), kv)
    if name == "peek" and len(a) == 1:
        return seq(nrun(ctx, a[0], i, g), lambda g2, r, v: [(g2, "Ok", i, v)])
    if name in ("cut", "complete") and len(a) == 1:
        return nrun(ctx, a[0], i, g)
    if name == "context" and len(a) == 2:
        return nrun(ctx, a[1], i, g)
    if name == "value" and len(a) == 2:
        return seq(nrun(ctx, a[1], i, g), lambda g2, r, v: [(g2, "Ok", r, a[0])])
    if name == "opt" and len(a) == 1:
        return [(g2, "Ok", r, some(v)) if var == "Ok" else (g2, "Ok", i, NONE) for g2, var, r, v in nrun(ctx, a[0], i, g)]
    if name in ("terminated", "preceded", "pair") and len(a) == 2:
        pick = {"terminated": lambda v, w: v, "preceded": lambda v, w: w, "pair": tup}[name]
        return seq(nrun(ctx, a[0], i, g), lambda g2, r, v: seq(
            nrun(ctx, a[1], r, g2), lambda g3, r2, w: [(g3, "Ok", r2, pick(v, w))]))
    if name in ("delimited", "separated_pair") and len(a) == 3:
        pick3 = (lambda u, v, w: v) if name == "delimited" else (lambda u, v, w: tup(u, w))
        return seq(nrun(ctx, a[0], i, g), lambda g2, r, u: seq(
            nrun(ctx, a[1], r, g2), lambda g3, r2, v: seq(
                nrun(ctx, a[2], r2, g3), lambda g4, r3, w: [(g4, "Ok", r3, pick3(u, v, w))])))
    if name in ("fold_many_m_n", "fold_many0", "fold_many1", "fold") and len(a) >= 3:
        par, init, f = a[-3:]
        q = call("nom::fold", *a[:-3], par, i)
        c = is_fact(q, "Ok")
        item = call("item", q)
        acc = ctx.merge_now(ctx.invoke(init, []))
        outs = []
        for g2, var, r, v in nrun(ctx, par, item, g):
            if var == "Ok":
                outs += [y for _, y in ctx.invoke_maybe(f, [acc, v], g2)]
        val = outs[0] if outs and all(o == outs[0] for o in outs) else mkphi([(frozenset(), o) for o in outs] or [(frozenset(), UNIT)])
        return [(g | {c}, "Ok", call("rest", q), call("fold", q, ctx.val(val))), (g | {neg(c)}, "Err", None, call("nomerr", q))]
    if name is not None:
        q = call("nom::" + name, *a, i)
        c = is_fact(q, "Ok")
        return [(g | {c}, "Ok", call("rest", q), call("value", q)), (g | {neg(c)}, "Err", None, call("nomerr", q))]
    # a function or closure of the workspace, or something unknown
    out = []
    for g2, y in ctx.invoke_maybe(p, [i], g):
        for g3, var, x in ctx.res(y):
            gg = g | g2 | g3
            if var == "Ok":
                out.append((gg, "Ok", fld(x, "0"), fld(x, "1")))
            else:
                out.append((gg, "Err", None, x if x is not None else UNIT))
    return out


def neg(c):
    return (c[0], not c[1])


def apply_nom(ctx, p, i):
    """The IResult of nom parser value p on i; None when p is not nom's."""
    if nname(p)[0] is None:
        return None
    out = [(g, parsed(r, v)) if var == "Ok" else (g, err(v)) for g, var, r, v in nrun(ctx, p, i)]
    return mkphi(out)


def install(m):
    for w in WIDTH:
        def f(ctx, a, w=w):
            p = mk("fn", json.dumps({"path": "nom::number::complete::" + w, "name": w}))
            return apply_nom(ctx, p, ctx.val(a[0]))
        m("nom::number::complete::" + w)(f)

    @m("nom::combinator::eof")
    def _(ctx, a):
        return apply_nom(ctx, mk("fn", json.dumps({"path": "nom::combinator::eof", "name": "eof"})), ctx.val(a[0]))

    @m("nom::Parser::parse")
    def _(ctx, a):
        p, i = ctx.val(a[0]), ctx.val(a[1])
        r = apply_nom(ctx, p, i)
        return r if r is not None else ctx.merge_now(ctx.invoke(p, [i]))
