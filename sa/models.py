"""What the analysis knows about library functions: how values and facts flow through them.

Everything not listed is an opaque call: its result depends on all its arguments, and what it may write through a
mutable reference depends on all of them too."""

import re

from terms import *


import nom_models


def items_of(ctx, seq, site):
    """Items of a sequence-like value as ('it'|'rep', term, guards)."""
    v = ctx.val(seq)
    if v.op == "iter":
        s, pos = v.a
        if isinstance(pos, int) and pos > 0 and s.op == "list" and all(k == "it" for k, _, _ in s.a[0][:pos]):
            return list(s.a[0][pos:])
        return items_of(ctx, s, site)
    if v.op == "list":
        return list(v.a[0])
    if v.op == "call" and v.a[0] in ("sorted", "reversed"):
        # the items are those of the sequence; that they come in this order is kept as a fact of each
        o = (mk("inorder", v), True)
        return [rep(x, g | {o}) for _, x, g in items_of(ctx, v.a[1][0], site)]
    if v.op == "phi" and not any(t.op == "adt" for _, t in v.a[0]):
        # a list made from itself adds nothing to itself
        busy = ctx.eng.expanding
        if v in busy:
            return []
        busy.add(v)
        try:
            out = []
            for g, t in v.a[0]:
                for k, x, ig in items_of(ctx, t, site):
                    out.append(rep(x, g | ig))
            return out
        finally:
            busy.discard(v)
    if v.op == "adt" and v.a[0] == OPTION:
        return [it(v.a[3][0])] if v.a[1] == "Some" else []
    if v.op == "phi" and any(t.op == "adt" and t.a[0] == OPTION for _, t in v.a[0]):
        return [rep(x, g) for g, var, x in ctx.opt(v) if var == "Some"]
    b = const_bytes(v)
    return [rep(mk("elem", v, site))]


def fresh(ctx, x, g, tag):
    """The item as one particular element: the generic elements it was built from get a name of their own."""
    es = [e for e in t_all(x) if e.op == "elem"]
    for c, _ in g:
        es += [e for e in t_all(c) if e.op == "elem"]
    if not es:
        return x, g, {}
    free = set()
    for a in ctx.eng.active:
        free |= t_all(a)
    for c, v in ctx.st.facts:
        if v and c.op == "is" and c.a[0].op == "next":
            free |= {e for e in set(es) if e.a[0] is c.a[0].a[0]}
    # what the walked sequence was computed from, and is known of here, is not an item of it
    known = set()
    for e in set(es):
        if e.a[0].op == "call":
            known |= free_elems(e.a[0])
    if known:
        free |= {e for c, _ in ctx.st.facts if c.op != "all" for e in free_elems(c) if e in known}
    es = sorted({e for e in es if e not in free}, key=lambda e: e.n)
    # only the innermost names: an element of a renamed element follows by substitution
    m = {}
    for j, e in enumerate(es):
        base = subst(e.a[0], m)
        m[e] = mk("elem", base, ("i", tag, j))
    return subst(x, m), subst_facts(g, m), m


def seq_id(ctx, v):
    v = ctx.val(v)
    return v.a[0] if v.op == "iter" else v


def reps(x, g=frozenset()):
    """An optional/repeated item, one per alternative of its value."""
    return [rep(t, simp(g | g2)) for g2, t in alts(x)]


def to_list(ctx, v):
    v = ctx.val(v)
    if v.op == "list":
        return list(v.a[0])
    if v.op == "uninit":
        return []
    if v.op == "iter":
        return items_of(ctx, v, "all")
    if v.op == "phi" and all(t.op == "list" for _, t in v.a[0]):
        return items_of(ctx, v, "all")
    if v.op == "adt" and v.a[1] == "":
        return []
    return [("rep", mk("elem", v, "all"), frozenset())]


def put(ctx, ptr, val):
    # an iterator behind several references is the one that advances
    for _ in range(4 if val.op == "iter" else 0):
        t = ctx.eng.deref(ctx.st.mem, ptr)
        if t.op != "ref" or ptr.op != "ref":
            break
        ptr = t
    ctx.eng.write_ptr(ctx.st.mem, ptr, val)


def build_models(eng):
    M = eng.models
    PM = []
    eng.prefix_models = PM

    def m(*paths):
        def deco(f):
            for p in paths:
                M[p] = f
            return f
        return deco

    nom_models.install(m)

    I = "std::iter::Iterator::"
    O = "std::option::Option::"
    R = "std::result::Result::"
    V = "std::vec::Vec::"

    # ---------------------------------------------------------------- ? operator
    @m("std::ops::Try::branch")
    def _(ctx, a):
        v = ctx.val(a[0])
        ty = ctx.aty[0] if ctx.aty else ""
        isopt = ty.startswith("std::option::Option")
        out = []
        for g, var, x in (ctx.opt(v) if isopt else ctx.res(v)):
            if var in ("Some", "Ok", "Continue"):
                out.append((g, mk("adt", CF, "Continue", ("0",), (x if x is not None else UNIT,))))
            elif var == "None":
                out.append((g, mk("adt", CF, "Break", ("0",), (NONE,))))
            else:
                out.append((g, mk("adt", CF, "Break", ("0",), (err(x if x is not None else UNIT),))))
        return mkphi(out) if out else ctx.diverge()

    @m("std::ops::FromResidual::from_residual")
    def _(ctx, a):
        v = ctx.val(a[0])
        out = []
        for g, t in alts(v):
            if t is NONE:
                out.append((g, NONE))
            elif t.op == "adt" and t.a[1] == "Err":
                out.append((g, err(mk("call", "From::from", (t.a[3][0],)))))
            else:
                out.append((g, err(mk("call", "From::from", (t,)))))
        return mkphi(out)

    # ---------------------------------------------------------------- comparisons
    def eq2(ctx, a, b):
        eng_ = ctx.eng
        return eng_.lift([ctx.val(a), ctx.val(b)], lambda x, y: eng_.cmpop("Eq", x, y), ctx.st.facts)

    @m("std::cmp::PartialEq::eq", "std::iter::Iterator::eq", "std::cmp::Eq::eq")
    def _(ctx, a):
        return eq2(ctx, a[0], a[1])

    @m("std::cmp::PartialEq::ne", "std::iter::Iterator::ne")
    def _(ctx, a):
        return ctx.eng.notv(eq2(ctx, a[0], a[1]))

    for nm, op in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
        def f(ctx, a, op=op):
            e = ctx.eng
            return e.lift([ctx.val(a[0]), ctx.val(a[1])], lambda x, y: e.cmpop(op, x, y), ctx.st.facts)
        M["std::cmp::PartialOrd::" + nm] = f

    @m("std::cmp::Ord::cmp", "std::iter::Iterator::cmp")
    def _(ctx, a):
        x, y = ctx.val(a[0]), ctx.val(a[1])
        if x is y:
            return mk("adt", "std::cmp::Ordering", "Equal", (), ())
        return mk("cmp", x, y)

    @m("std::cmp::PartialOrd::partial_cmp", "std::iter::Iterator::partial_cmp")
    def _(ctx, a):
        return some(mk("cmp", ctx.val(a[0]), ctx.val(a[1])))

    def ordmax(name):
        def f(ctx, a):
            return call(name, *[ctx.val(x) for x in a])
        return f
    for p in ("std::cmp::min", "std::cmp::Ord::min"):
        M[p] = ordmax("min")
    for p in ("std::cmp::max", "std::cmp::Ord::max"):
        M[p] = ordmax("max")

    def checked(op):
        def f(ctx, a):
            x, y = ctx.val(a[0]), ctx.val(a[1])
            c = mk("is", call("checked_" + op.lower(), x, y), "Some")
            v = ctx.eng.arith(op, x, y)
            if v.op == "int":
                return some(v) if int(v.a[0]) >= 0 else NONE
            return mkphi([(frozenset([(c, True)]), some(v)), (frozenset([(c, False)]), NONE)])
        return f
    for ty in ("u8", "u16", "u32", "u64", "u128", "usize"):
        for nm, op in (("add", "Add"), ("sub", "Sub"), ("mul", "Mul")):
            M[f"std::num::<impl {ty}>::checked_{nm}"] = checked(op)

    def both(ctx, lo, hi, x, strict):
        e = ctx.eng
        r = TRUE
        for c in ([] if lo is None else [e.lift([lo, x], lambda p, q: e.cmpop("Le", p, q), ctx.st.facts)]) + \
                ([] if hi is None else [e.lift([x, hi], lambda p, q: e.cmpop("Lt" if strict else "Le", p, q), ctx.st.facts)]):
            r = c if r is TRUE else e.boolop("BitAnd", r, c, ctx.st.facts)
        return r

    @m("std::ops::RangeInclusive::new")
    def _(ctx, a):
        return mk("adt", "std::ops::RangeInclusive", "RangeInclusive", ("start", "end", "exhausted"), (ctx.val(a[0]), ctx.val(a[1]), FALSE))

    @m("std::ops::RangeInclusive::contains", "std::ops::Range::contains", "std::ops::RangeFrom::contains", "std::ops::RangeTo::contains",
       "std::ops::RangeToInclusive::contains", "std::ops::RangeBounds::contains")
    def _(ctx, a):
        v, x = ctx.val(a[0]), ctx.val(a[1])
        if v.op != "adt":
            return call("contains", v, x)
        f = dict(zip(v.a[2], (ctx.val(y) for y in v.a[3])))
        return both(ctx, f.get("start"), f.get("end"), x, not v.a[0].endswith("Inclusive"))

    def lower(ctx, x):
        def f(t):
            if t.op == "str":
                return mk("str", t.a[0].lower())
            if t.op == "call" and t.a[0] == "lower":
                return t
            return call("lower", t)
        v = ctx.val(x)
        return ctx.eng.lift([v], f, ctx.st.facts)

    @m("std::str::<impl str>::to_lowercase", "std::str::<impl str>::to_ascii_lowercase",
       "std::char::methods::<impl char>::to_ascii_lowercase", "std::slice::<impl [u8]>::to_ascii_lowercase")
    def _(ctx, a):
        return lower(ctx, a[0])

    @m("std::str::<impl str>::to_uppercase", "std::str::<impl str>::to_ascii_uppercase")
    def _(ctx, a):
        return call("upper", ctx.val(a[0]))

    @m("std::str::<impl str>::make_ascii_lowercase", "std::slice::<impl [u8]>::make_ascii_lowercase")
    def _(ctx, a):
        put(ctx, a[0], lower(ctx, a[0]))
        return UNIT

    @m("std::str::<impl str>::eq_ignore_ascii_case", "std::slice::<impl [u8]>::eq_ignore_ascii_case")
    def _(ctx, a):
        # case-insensitive equality is equality of the lowercased values
        x, y = lower(ctx, a[0]), lower(ctx, a[1])
        return ctx.eng.lift([x, y], mkeq, ctx.st.facts)

    # ---------------------------------------------------------------- arithmetic traits
    for nm in ("Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
        def f(ctx, a, nm=nm):
            ty = ctx.aty[0] if ctx.aty else ""
            if nm == "Add" and "String" in ty:
                return concat(ctx, a[0], a[1])
            x, y = ctx.val(a[0]), ctx.val(a[1])
            if nm in ("Add", "Sub", "Mul"):
                ctx.event("assert::overflow:" + nm, "overflow:" + nm, (x, y), None, "assert", True)
            return ctx.eng.arith(nm, x, y)
        M["std::ops::" + nm + "::" + nm.lower()] = f
        M["std::ops::" + nm + "Assign::" + nm.lower() + "_assign"] = lambda ctx, a, nm=nm: (
            put(ctx, a[0], concat(ctx, a[0], a[1]) if nm == "Add" and "String" in (ctx.aty[0] if ctx.aty else "")
                else ctx.eng.arith(nm, ctx.val(a[0]), ctx.val(a[1]))), UNIT)[1]

    @m("std::ops::Not::not")
    def _(ctx, a):
        return ctx.eng.notv(ctx.val(a[0]))

    # ---------------------------------------------------------------- Option / Result
    def omap(ctx, v, yes, fn, keep):
        out = []
        for g, var, x in v:
            if var == yes:
                for g2, y in fn(g, x):
                    out.append((g | g2, y))
            else:
                out.append((g, keep(var, x)))
        if not out:
            ctx.diverge()
        return mkphi(out)

    def inv(ctx, f, g, *xs):
        return ctx.invoke_maybe(f, list(xs), g)

    nn = lambda var, x: NONE
    ee = lambda var, x: err(x if x is not None else UNIT)

    @m(O + "map")
    def _(ctx, a):
        return omap(ctx, ctx.opt(ctx.val(a[0])), "Some", lambda g, x: [(g2, some(y)) for g2, y in inv(ctx, a[1], g, x)], nn)

    @m(R + "map")
    def _(ctx, a):
        return omap(ctx, ctx.res(ctx.val(a[0])), "Ok", lambda g, x: [(g2, ok(y)) for g2, y in inv(ctx, a[1], g, x)], ee)

    @m(R + "map_err")
    def _(ctx, a):
        return omap(ctx, ctx.res(ctx.val(a[0])), "Err",
                    lambda g, x: [(g2, err(y)) for g2, y in inv(ctx, a[1], g, x if x is not None else UNIT)], lambda var, x: ok(x))

    @m(O + "and_then")
    def _(ctx, a):
        return omap(ctx, ctx.opt(ctx.val(a[0])), "Some", lambda g, x: inv(ctx, a[1], g, x), nn)

    @m(R + "and_then")
    def _(ctx, a):
        return omap(ctx, ctx.res(ctx.val(a[0])), "Ok", lambda g, x: inv(ctx, a[1], g, x), ee)

    @m(O + "or_else")
    def _(ctx, a):
        return omap(ctx, ctx.opt(ctx.val(a[0])), "None", lambda g, x: inv(ctx, a[1], g), lambda var, x: some(x))

    @m(R + "or_else")
    def _(ctx, a):
        return omap(ctx, ctx.res(ctx.val(a[0])), "Err", lambda g, x: inv(ctx, a[1], g, x), lambda var, x: ok(x))

    @m(O + "or")
    def _(ctx, a):
        return omap(ctx, ctx.opt(ctx.val(a[0])), "None", lambda g, x: alts(ctx.val(a[1])), lambda var, x: some(x))

    @m(R + "or")
    def _(ctx, a):
        return omap(ctx, ctx.res(ctx.val(a[0])), "Err", lambda g, x: alts(ctx.val(a[1])), lambda var, x: ok(x))

    @m(O + "ok_or")
    def _(ctx, a):
        return omap(ctx, ctx.opt(ctx.val(a[0])), "None", lambda g, x: [(frozenset(), err(a[1]))], lambda var, x: ok(x))

    @m(O + "ok_or_else")
    def _(ctx, a):
        return omap(ctx, ctx.opt(ctx.val(a[0])), "None", lambda g, x: [(g2, err(y)) for g2, y in inv(ctx, a[1], g)],
                    lambda var, x: ok(x))

    @m(R + "ok")
    def _(ctx, a):
        return omap(ctx, ctx.res(ctx.val(a[0])), "Ok", lambda g, x: [(frozenset(), some(x))], nn)

    @m(R + "err")
    def _(ctx, a):
        return omap(ctx, ctx.res(ctx.val(a[0])), "Err", lambda g, x: [(frozenset(), some(x))], nn)

    def unwrap(yes, no):
        def f(ctx, a):
            v = ctx.val(a[0])
            al = ctx.expand(v, yes, no)
            good = [(g, x if x is not None else UNIT) for g, var, x in al if var == yes]
            if any(var != yes for g, var, x in al):
                ctx.event("unwrap", "unwrap", (v,), None, "unwrap", a)
            if not good:
                ctx.diverge()
            return ctx.merge_now(good)
        return f
    for nm in ("unwrap", "expect"):
        M[O + nm] = unwrap("Some", "None")
        M[R + nm] = unwrap("Ok", "Err")
    M[R + "unwrap_err"] = M[R + "expect_err"] = unwrap("Err", "Ok")

    def ident1(var, x):
        return x if x is not None else UNIT

    @m(O + "unwrap_or")
    def _(ctx, a):
        return omap(ctx, ctx.opt(ctx.val(a[0])), "None", lambda g, x: alts(a[1]), ident1)

    @m(R + "unwrap_or")
    def _(ctx, a):
        return omap(ctx, ctx.res(ctx.val(a[0])), "Err", lambda g, x: alts(a[1]), ident1)

    @m(O + "unwrap_or_else")
    def _(ctx, a):
        return omap(ctx, ctx.opt(ctx.val(a[0])), "None", lambda g, x: inv(ctx, a[1], g), ident1)

    @m(R + "unwrap_or_else")
    def _(ctx, a):
        return omap(ctx, ctx.res(ctx.val(a[0])), "Err", lambda g, x: inv(ctx, a[1], g, x), ident1)

    def default_of(ctx):
        ts = ctx.callee.get("targs", [])
        t = ts[0] if ts else ""
        if t in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"):
            return mk("int", "0")
        if t == "bool":
            return FALSE
        if t.startswith(("std::option::Option", "Option")):
            return NONE
        return EMPTY if any("Vec" in t or "String" in t or t in ("&str", "&[u8]") for t in ts) else call("default")

    @m(O + "unwrap_or_default")
    def _(ctx, a):
        return omap(ctx, ctx.opt(ctx.val(a[0])), "None", lambda g, x: [(frozenset(), default_of(ctx))], ident1)

    @m(R + "unwrap_or_default")
    def _(ctx, a):
        return omap(ctx, ctx.res(ctx.val(a[0])), "Err", lambda g, x: [(frozenset(), default_of(ctx))], ident1)

    @m(O + "map_or")
    def _(ctx, a):
        out = []
        for g, var, x in ctx.opt(ctx.val(a[0])):
            out += [(g | g2, y) for g2, y in (inv(ctx, a[2], g, x) if var == "Some" else alts(a[1]))]
        return mkphi(out)

    @m(R + "map_or")
    def _(ctx, a):
        out = []
        for g, var, x in ctx.res(ctx.val(a[0])):
            out += [(g | g2, y) for g2, y in (inv(ctx, a[2], g, x) if var == "Ok" else alts(a[1]))]
        return mkphi(out)

    @m(O + "map_or_else")
    def _(ctx, a):
        out = []
        for g, var, x in ctx.opt(ctx.val(a[0])):
            out += [(g | g2, y) for g2, y in (inv(ctx, a[2], g, x) if var == "Some" else inv(ctx, a[1], g))]
        return mkphi(out)

    @m(R + "map_or_else")
    def _(ctx, a):
        out = []
        for g, var, x in ctx.res(ctx.val(a[0])):
            out += [(g | g2, y) for g2, y in (inv(ctx, a[2], g, x) if var == "Ok" else inv(ctx, a[1], g, x))]
        return mkphi(out)

    def istest(yes, no, want):
        def f(ctx, a):
            out = [(g, mk("bool", var == want)) for g, var, x in ctx.expand(ctx.val(a[0]), yes, no)]
            return boolphi(ctx, out)
        return f

    def boolphi(ctx, out):
        if not out:
            ctx.diverge()
        return mkphi(out)
    M[O + "is_some"] = istest("Some", "None", "Some")
    M[O + "is_none"] = istest("Some", "None", "None")
    M[R + "is_ok"] = istest("Ok", "Err", "Ok")
    M[R + "is_err"] = istest("Ok", "Err", "Err")

    def is_and(yes, no, neg_default):
        def f(ctx, a):
            out = []
            for g, var, x in ctx.expand(ctx.val(a[0]), yes, no):
                if var == yes:
                    out += [(g | g2, y) for g2, y in inv(ctx, a[1], g, x)]
                else:
                    out.append((g, mk("bool", neg_default)))
            return mkphi(out)
        return f
    M[O + "is_some_and"] = is_and("Some", "None", False)
    M[O + "is_none_or"] = is_and("Some", "None", True)
    M[R + "is_ok_and"] = is_and("Ok", "Err", False)

    @m(O + "filter")
    def _(ctx, a):
        out = []
        for g, var, x in ctx.opt(ctx.val(a[0])):
            if var == "Some":
                for g2, y in inv(ctx, a[1], g, x):
                    for gs in ctx.eng.split_bool(y, True, frozenset()):
                        out.append((g | g2 | gs, some(x)))
                    for gs in ctx.eng.split_bool(y, False, frozenset()):
                        out.append((g | g2 | gs, NONE))
            else:
                out.append((g, NONE))
        return mkphi(out)

    @m(O + "as_mut")
    def _(ctx, a):
        if a[0].op == "ref":
            root, pr = a[0].a
            v = ctx.val(a[0])
            out = []
            for g, var, x in ctx.opt(v):
                out.append((g, some(mk("ref", root, pr + (("Some", "0"),))) if var == "Some" else NONE))
            return mkphi(out)
        return a[0]

    for p in (O + "as_ref", O + "as_deref", O + "cloned", O + "copied", R + "as_ref", R + "cloned", R + "copied", R + "as_deref",
              R + "as_mut", O + "as_deref_mut"):
        M[p] = lambda ctx, a: ctx.val(a[0])

    @m(O + "take", "std::mem::take")
    def _(ctx, a):
        v = ctx.val(a[0])
        put(ctx, a[0], NONE if "Option" in ctx.callee["path"] else call("default"))
        return v

    @m("std::mem::replace", O + "replace", O + "insert")
    def _(ctx, a):
        v = ctx.val(a[0])
        isopt = "Option" in ctx.callee["path"]
        put(ctx, a[0], some(a[1]) if isopt else a[1])
        return v

    @m("std::clone::Clone::clone_from", "clone::clone_from")
    def _(ctx, a):
        put(ctx, a[0], ctx.val(a[1]))
        return UNIT

    @m("std::mem::swap")
    def _(ctx, a):
        x, y = ctx.val(a[0]), ctx.val(a[1])
        put(ctx, a[0], y)
        put(ctx, a[1], x)
        return UNIT

    @m(O + "get_or_insert_with", O + "get_or_insert")
    def _(ctx, a):
        v = ctx.val(a[0])
        out = []
        for g, var, x in ctx.opt(v):
            if var == "Some":
                out.append((g, x))
            else:
                out += inv(ctx, a[1], g) if ctx.callee["name"].endswith("with") else [(g, a[1])]
        r = mkphi(out)
        put(ctx, a[0], some(r))
        return r

    @m(O + "transpose")
    def _(ctx, a):
        out = []
        for g, var, x in ctx.opt(ctx.val(a[0])):
            if var == "None":
                out.append((g, ok(NONE)))
            else:
                for g2, v2, y in ctx.res(x):
                    out.append((g | g2, ok(some(y)) if v2 == "Ok" else err(y if y is not None else UNIT)))
        return mkphi(out)

    @m(O + "flatten")
    def _(ctx, a):
        return omap(ctx, ctx.opt(ctx.val(a[0])), "Some", lambda g, x: alts(x), nn)

    @m(O + "zip")
    def _(ctx, a):
        return omap(ctx, ctx.opt(ctx.val(a[0])), "Some",
                    lambda g, x: [(g2, some(tup(x, y)) if v2 == "Some" else NONE) for g2, v2, y in ctx.opt(ctx.val(a[1]))], nn)

    @m(O + "iter", O + "into_iter", R + "into_iter", R + "iter")
    def _(ctx, a):
        return mk("iter", mklist(items_of(ctx, a[0], ctx.site())), 0)

    # ---------------------------------------------------------------- vectors, strings as sequences, maps
    def newempty(ctx, a):
        return EMPTY
    for p in ("std::vec::Vec::new", "std::vec::Vec::with_capacity", "std::collections::HashMap::new", "std::string::String::new",
              "std::string::String::with_capacity", "std::collections::BTreeMap::new", "std::collections::HashSet::new",
              "std::collections::BTreeSet::new", "std::collections::VecDeque::new", "std::collections::HashMap::with_capacity"):
        M[p] = newempty

    def with_cap(ctx, a):
        ctx.event(ctx.callee["path"], "with_capacity", (ctx.val(a[0]),), None, "alloc", a)
        return EMPTY
    for p in ("std::vec::Vec::with_capacity", "std::string::String::with_capacity", "std::collections::HashMap::with_capacity"):
        M[p] = with_cap

    @m("std::default::Default::default")
    def _(ctx, a):
        t = ctx.callee.get("targs", [""])[0]
        if t.startswith(("std::vec::Vec", "std::collections", "std::string::String")):
            return EMPTY
        if t.startswith("std::option::Option"):
            return NONE
        if t == "bool":
            return FALSE
        if t in ("usize", "u8", "u16", "u32", "u64", "i64", "u128"):
            return mk("int", "0")
        return call("default", mk("str", t))

    @m("std::vec::from_elem")
    def _(ctx, a):
        return mk("repeat", a[0], "n")

    @m("std::boxed::Box::new_uninit")
    def _(ctx, a):
        return mk("newbox", ctx.fr, ctx.b)

    @m("std::boxed::box_assume_init_into_vec_unsafe", "std::boxed::Box::assume_init")
    def _(ctx, a):
        v = ctx.eng.deref(ctx.st.mem, a[0])
        # written through MaybeUninit/ManuallyDrop wrappers
        while v.op == "upd":
            v = v.a[2]
        return v

    @m(V + "push", "std::collections::VecDeque::push_back", "std::collections::HashSet::insert", "std::collections::BTreeSet::insert")
    def _(ctx, a):
        put(ctx, a[0], mklist(to_list(ctx, a[0]) + [it(ctx.val(a[1]) if a[1].op != "ref" else a[1])]))
        return UNIT

    @m(V + "insert")
    def _(ctx, a):
        l = to_list(ctx, a[0])
        if a[1].op == "int" and int(a[1].a[0]) == 0:
            l = [it(a[2])] + l
        else:
            l = [rep(x, g) for _, x, g in l] + [it(a[2])]
        put(ctx, a[0], mklist(l))
        ctx.event("std::vec::Vec::insert", "insert", (ctx.val(a[0]), a[1]), None, "index", a)
        return UNIT

    @m(V + "extend_from_slice", V + "append", "std::iter::Extend::extend", V + "extend")
    def _(ctx, a):
        ty = ctx.aty[0] if ctx.aty else ""
        o = ctx.val(a[1])
        cur = ctx.val(a[0])
        if re.match(r"(&|mut )*(std::vec::Vec<u8[,>]|Vec<u8[,>]|\[u8\])", ty):
            put(ctx, a[0], concat(ctx, a[0], a[1]))
            if ctx.callee["name"] == "append":
                put(ctx, a[1], EMPTY)
            return UNIT
        its = items_of(ctx, a[1], ctx.site())
        put(ctx, a[0], mklist(to_list(ctx, a[0]) + its))
        if ctx.callee["name"] == "append":
            put(ctx, a[1], EMPTY)
        return UNIT

    @m(V + "clear", "std::collections::HashMap::clear", "std::string::String::clear", "std::collections::BTreeMap::clear")
    def _(ctx, a):
        ctx.event(ctx.callee["path"], "clear", (ctx.val(a[0]),), None, "ext", a)
        put(ctx, a[0], EMPTY)
        return UNIT

    @m(V + "pop", "std::collections::VecDeque::pop_back")
    def _(ctx, a):
        v = ctx.val(a[0])
        if v.op == "list":
            l = list(v.a[0])
            if not l:
                return NONE
            if l[-1][0] == "it":
                put(ctx, a[0], mklist(l[:-1]))
                return some(l[-1][1])
        if v.op == "call" and v.a[0] == "reversed":
            # popping a reversed list walks the list forwards
            x, k = v.a[1][0], 0
            if x.op == "call" and x.a[0] == "tail":
                x, k = x.a[1][0], int(x.a[1][1].a[0])
            put(ctx, a[0], call("reversed", call("tail", x, mk("int", str(k + 1)))))
            return getn(ctx, x, mk("int", str(k)))
        put(ctx, a[0], mk("mut", "pop", 0, (v,)))
        return mk("call", "pop", (v,))

    @m(V + "len", "std::slice::<impl [T]>::len", "std::str::<impl str>::len", "std::string::String::len",
       "std::collections::HashMap::len", "std::iter::ExactSizeIterator::len", "std::collections::BTreeMap::len")
    def _(ctx, a):
        return ctx.eng.lift([ctx.val(a[0])], ctx.eng.length, ctx.st.facts)

    @m(V + "is_empty", "std::slice::<impl [T]>::is_empty", "std::str::<impl str>::is_empty", "std::string::String::is_empty",
       "std::collections::HashMap::is_empty")
    def _(ctx, a):
        def f(v):
            if v.op == "list":
                if not v.a[0]:
                    return TRUE
                if any(k == "it" for k, _, _ in v.a[0]):
                    return FALSE
            b = const_bytes(v)
            if b is not None:
                return mk("bool", not b)
            return mkeq(mk("len", v), ZERO)
        return ctx.eng.lift([ctx.val(a[0])], f, ctx.st.facts)

    def rng(lo, hi=None):
        if hi is None:
            return mk("adt", "std::ops::RangeFrom", "RangeFrom", ("start",), (lo,))
        return mk("adt", "std::ops::Range", "Range", ("start", "end"), (lo, hi))
    ZERO, ONE = mk("int", "0"), mk("int", "1")

    def sl(v, i):
        """v[i] for a range i, in one spelling."""
        if i.op == "adt":
            nm = i.a[1] or i.a[0].split("::")[-1]
            f = dict(zip(i.a[2], i.a[3]))
            if nm == "RangeFull":
                return v
            if nm == "RangeTo":
                i = rng(ZERO, f["end"])
            elif nm == "RangeToInclusive" and f["end"].op == "int":
                i = rng(ZERO, mk("int", str(int(f["end"].a[0]) + 1)))
            elif nm == "RangeFrom" and f["start"] is ZERO:
                return v
            elif nm == "Range" and f["end"].op == "len" and f["end"].a[0] is v:
                return sl(v, rng(f["start"]))
        return call("slice", v, i)

    def opaque_opt(tag, v, x):
        c = call(tag, *v)
        f = mk("is", c, "Some")
        return mkphi([(frozenset([(f, True)]), some(x)), (frozenset([(f, False)]), NONE)])

    def when(cond, x, eng):
        """Some(x) if cond."""
        out = []
        for val, t in ((True, some(x)), (False, NONE)):
            for gs in eng.split_bool(cond, val, frozenset()):
                out.append((gs, t))
        return mkphi(out)

    def begins(ctx, v, p):
        b = const_bytes(p)
        ty = ctx.aty[0] if ctx.aty else ""
        if b is not None and "str" not in ty and "String" not in ty:
            return mkeq(p, sl(v, rng(ZERO, mk("int", str(len(b)))))) if b else TRUE
        return call("std::slice::<impl [T]>::starts_with" if "str" not in ty.lower() else "std::str::<impl str>::starts_with", v, p)

    def plen(ctx, p):
        b = const_bytes(p)
        if b is not None:
            return mk("int", str(len(b)))
        if p.op == "char":
            return mk("int", "1")
        return ctx.eng.length(p)

    @m("std::slice::<impl [T]>::starts_with", "std::str::<impl str>::starts_with")
    def _(ctx, a):
        return ctx.eng.lift([ctx.val(a[0]), ctx.val(a[1])], lambda v, p: begins(ctx, v, p), ctx.st.facts)

    @m("std::slice::<impl [T]>::strip_prefix", "std::str::<impl str>::strip_prefix")
    def _(ctx, a):
        return ctx.eng.lift([ctx.val(a[0]), ctx.val(a[1])],
                            lambda v, p: when(begins(ctx, v, p), sl(v, rng(plen(ctx, p))), ctx.eng), ctx.st.facts)

    @m("std::slice::<impl [T]>::strip_suffix", "std::str::<impl str>::strip_suffix")
    def _(ctx, a):
        ty = (ctx.aty[0] if ctx.aty else "").lower()
        nm = "std::str::<impl str>::ends_with" if "str" in ty else "std::slice::<impl [T]>::ends_with"

        def f(v, p):
            return when(call(nm, v, p), call("strip_suffix", v, p), ctx.eng)
        return ctx.eng.lift([ctx.val(a[0]), ctx.val(a[1])], f, ctx.st.facts)

    @m("std::slice::<impl [T]>::split_at", "std::str::<impl str>::split_at", "std::slice::<impl [T]>::split_at_checked")
    def _(ctx, a):
        n = ctx.val(a[1])
        r = ctx.eng.lift([ctx.val(a[0])], lambda v: tup(sl(v, rng(ZERO, n)), sl(v, rng(n))), ctx.st.facts)
        if ctx.callee["name"] == "split_at_checked":
            bad = ctx.eng.less(ctx.eng.length(ctx.val(a[0])), n)
            return when(ctx.eng.notv(bad), r, ctx.eng)
        ctx.event("index", "index", (ctx.val(a[0]), rng(n)), None, "index", a)
        return r

    @m("std::slice::<impl [T]>::split_first", "std::slice::<impl [T]>::split_last")
    def _(ctx, a):
        first = ctx.callee["name"] == "split_first"

        def f(v):
            if v.op == "list":
                l = v.a[0]
                if not l:
                    return NONE
                if first and l[0][0] == "it":
                    return some(tup(l[0][1], mklist(l[1:])))
                if not first and l[-1][0] == "it":
                    return some(tup(l[-1][1], mklist(l[:-1])))
            e = mkeq(mk("len", v), ZERO)
            x = tup(mk("at", v, ZERO), sl(v, rng(ONE))) if first else tup(mk("at", v, mk("int", "-1")), mk("mut", "pop", 0, (v,)))
            return mkphi([(frozenset([(e, False)]), some(x)), (frozenset([(e, True)]), NONE)])
        return ctx.eng.lift([ctx.val(a[0])], f, ctx.st.facts)

    @m("std::str::<impl str>::split_once", "std::str::<impl str>::rsplit_once")
    def _(ctx, a):
        v, p = ctx.val(a[0]), ctx.val(a[1])
        nm = ctx.callee["name"]
        return opaque_opt(nm, (v, p), tup(call(nm + ".0", v, p), call(nm + ".1", v, p)))

    for nm_, fn_ in (("then", True), ("then_some", False)):
        def f(ctx, a, lazy=fn_):
            out = []
            c = ctx.val(a[0])
            for gs in ctx.eng.split_bool(c, True, frozenset()):
                out += [(gs | g2, some(y)) for g2, y in (inv(ctx, a[1], gs) if lazy else alts(a[1]))]
            for gs in ctx.eng.split_bool(c, False, frozenset()):
                out.append((gs, NONE))
            return mkphi(out)
        M["std::bool::<impl bool>::" + nm_] = f

    @m(R + "is_err_and")
    def _(ctx, a):
        out = []
        for g, var, x in ctx.res(ctx.val(a[0])):
            out += [(g | g2, y) for g2, y in inv(ctx, a[1], g, x)] if var == "Err" else [(g, FALSE)]
        return mkphi(out)

    @m(O + "xor")
    def _(ctx, a):
        out = []
        for g, var, x in ctx.opt(ctx.val(a[0])):
            for g2, v2, y in ctx.opt(ctx.val(a[1])):
                out.append((g | g2, some(x) if var == "Some" and v2 == "None" else some(y) if var == "None" and v2 == "Some" else NONE))
        return mkphi(out)

    @m(O + "and", R + "and")
    def _(ctx, a):
        out = []
        isopt = "Option" in ctx.callee["path"]
        for g, var, x in (ctx.opt if isopt else ctx.res)(ctx.val(a[0])):
            out += [(g | g2, y) for g2, y in alts(ctx.val(a[1]))] if var in ("Some", "Ok") else [(g, NONE if isopt else err(x))]
        return mkphi(out)

    @m(O + "inspect", R + "inspect", R + "inspect_err")
    def _(ctx, a):
        return ctx.val(a[0])

    def getn(ctx, v, i):
        v = ctx.val(v)
        if v.op == "iter" and v.a[1] == 0:
            v = v.a[0]
        if i.op == "int" and v.op == "list":
            n = int(i.a[0])
            l = v.a[0]
            if n >= 0 and len(l) > n and all(k == "it" for k, _, _ in l[: n + 1]):
                return some(l[n][1])
            if n == -1 and l and l[-1][0] == "it":
                return some(l[-1][1])
            if not l:
                return NONE
        if i.op != "int" and i.op not in ("str", "bytes") and v.op == "list" and False:
            pass
        if v.op == "list" and any(k == "rep" for k, _, _ in v.a[0]):
            al = [(g | {(mk("is", call("get", v, i), "Some"), True)}, some(x)) for _, x, g in v.a[0]]
            al.append((frozenset([(mk("is", call("get", v, i), "Some"), False)]), NONE))
            return mkphi(al)
        if i is ZERO or i.op == "int" and i.a[0] == "-1":
            e = mkeq(mk("len", v), ZERO)
            return mkphi([(frozenset([(e, False)]), some(mk("at", v, i))), (frozenset([(e, True)]), NONE)])
        f = mk("is", call("get", v, i), "Some")
        return mkphi([(frozenset([(f, True)]), some(ctx.eng.index(v, i))), (frozenset([(f, False)]), NONE)])

    @m("std::slice::<impl [T]>::first")
    def _(ctx, a):
        return getn(ctx, a[0], mk("int", "0"))

    @m("std::slice::<impl [T]>::last")
    def _(ctx, a):
        return getn(ctx, a[0], mk("int", "-1"))

    @m("std::slice::<impl [T]>::get")
    def _(ctx, a):
        if any("Range" in t for t in ctx.aty):
            v, i = ctx.val(a[0]), ctx.val(a[1])
            return opaque_opt("getslice", (v, i), sl(v, i))
        return getn(ctx, a[0], ctx.val(a[1]))

    @m(I + "nth")
    def _(ctx, a):
        return getn(ctx, a[0], ctx.val(a[1]))

    @m(I + "last", "std::iter::DoubleEndedIterator::next_back")
    def _(ctx, a):
        return getn(ctx, a[0], mk("int", "-1"))

    @m("std::slice::<impl [T]>::contains", V + "contains", "std::collections::HashSet::contains")
    def _(ctx, a):
        return quant(ctx, a[0], lambda x: [(frozenset(), ctx.eng.lift([ctx.val(x), ctx.val(a[1])], mkeq, frozenset()))], True)

    # ---------------------------------------------------------------- serde
    @m("serde::Serializer::serialize_seq", "serde::Serializer::serialize_tuple", "serde::Serializer::serialize_struct",
       "serde::Serializer::serialize_map")
    def _(ctx, a):
        # the announced length is part of what is written
        return ok(mklist([("it", call("announced", ctx.val(a[-1])), frozenset())]))

    def ser_put(ctx, ptr, x):
        v = ctx.val(ptr)
        put(ctx, ptr, mklist((v.a[0] if v.op == "list" else (("it", v, frozenset()),)) + (("it", x, frozenset()),)))
        return ok(UNIT)

    @m("serde::ser::SerializeSeq::serialize_element", "serde::ser::SerializeTuple::serialize_element")
    def _(ctx, a):
        return ser_put(ctx, a[0], ctx.val(a[1]))

    @m("serde::ser::SerializeStruct::serialize_field")
    def _(ctx, a):
        return ser_put(ctx, a[0], tup(ctx.val(a[1]), ctx.val(a[2])))

    @m("serde::ser::SerializeMap::serialize_entry")
    def _(ctx, a):
        return ser_put(ctx, a[0], tup(ctx.val(a[1]), ctx.val(a[2])))

    @m("serde::ser::SerializeStruct::skip_field")
    def _(ctx, a):
        return ok(UNIT)

    @m("serde::ser::SerializeSeq::end", "serde::ser::SerializeTuple::end", "serde::ser::SerializeStruct::end", "serde::ser::SerializeMap::end")
    def _(ctx, a):
        return ok(ctx.val(a[0]))

    @m("serde_bytes::Bytes::new", "serde_bytes::ByteBuf::from", "serde_bytes::bytes::Bytes::new")
    def _(ctx, a):
        return ctx.val(a[0])

    @m("serde::de::SeqAccess::next_element")
    def _(ctx, a):
        v = ctx.val(a[0])
        x, k = v, 0
        if v.op == "call" and v.a[0] == "tail":
            x, k = v.a[1][0], int(v.a[1][1].a[0])
        put(ctx, a[0], call("tail", x, mk("int", str(k + 1))))
        n = mk("int", str(k))
        r, h = is_fact(call("readable", x, n), "Ok"), is_fact(call("elem", x, n), "Some")
        return mkphi([(frozenset({r, h}), ok(some(mk("at", x, n)))), (frozenset({r, (h[0], not h[1])}), ok(NONE)),
                      (frozenset({(r[0], not r[1])}), err(call("serdeerr", x, n)))])

    SX, SY = mk("sx"), mk("sy")

    def sortm(ctx, a):
        v = ctx.val(a[0])
        nm = ctx.callee["name"]
        if nm in ("sort", "sort_unstable"):
            how = mk("cmp", SX, SY)
        elif "key" in nm:
            kx, ky = ctx.invoke(a[1], [SX]), ctx.invoke(a[1], [SY])
            how = mk("cmp", mkphi(kx), mkphi(ky)) if kx and ky else UNIT
        else:
            al = ctx.invoke(a[1], [SX, SY])
            how = mkphi(al) if al else UNIT
        put(ctx, a[0], call("sorted", v, how))
        return UNIT
    for nm in ("sort", "sort_unstable", "sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key"):
        M["std::slice::<impl [T]>::" + nm] = sortm
        M["std::vec::Vec::" + nm] = sortm

    @m("std::cmp::Ordering::reverse")
    def _(ctx, a):
        return ctx.eng.lift([ctx.val(a[0])], lambda t: mk("cmp", t.a[1], t.a[0]) if t.op == "cmp" else call("revord", t), ctx.st.facts)

    @m("std::cmp::Ordering::then", "std::cmp::Ordering::then_with")
    def _(ctx, a):
        b = ctx.val(a[1])
        if ctx.callee["name"] == "then_with":
            al = ctx.invoke(a[1], [])
            b = mkphi(al) if al else UNIT
        x = ctx.val(a[0])
        if x.op == b.op == "cmp":
            return mk("cmp", tup(x.a[0], b.a[0]), tup(x.a[1], b.a[1]))
        return call("thenord", x, b)

    @m("std::slice::<impl [T]>::reverse")
    def _(ctx, a):
        put(ctx, a[0], call("reversed", ctx.val(a[0])))
        return UNIT

    @m("std::slice::<impl [T]>::copy_from_slice", "std::slice::<impl [T]>::clone_from_slice")
    def _(ctx, a):
        if a[0].op != "ref":
            return None
        put(ctx, a[0], ctx.val(a[1]))
        return UNIT

    @m("std::ops::Index::index", "std::ops::IndexMut::index_mut")
    def _(ctx, a):
        v, i = ctx.val(a[0]), ctx.val(a[1])
        ctx.event("index", "index", (v, i), None, "index", a)
        ty = ctx.aty[1] if len(ctx.aty) > 1 else ""
        if "RangeFull" in ty:
            return v
        if "Range" in ty and ctx.callee["name"] == "index_mut" and a[0].op == "ref" and i.op == "adt":
            return mk("ref", a[0].a[0], a[0].a[1] + (("@", i),))
        if "Range" in ty:
            return ctx.eng.lift([v], lambda t: sl(t, i), ctx.st.facts)
        if "HashMap" in (ctx.aty[0] if ctx.aty else "") or "BTreeMap" in (ctx.aty[0] if ctx.aty else ""):
            return ctx.eng.project(map_get(ctx, v, i), "Some", "0", None)
        if ctx.callee["name"] == "index_mut" and a[0].op == "ref":
            return mk("ref", a[0].a[0], a[0].a[1] + (("@", i),))
        return ctx.eng.index(v, i, ctx.st)

    # maps
    def others(v, k):
        """The map where k is concerned: without what was done to other keys."""
        while k.op in ("str", "bytes") and v.op == "mut" and v.a[0] == "mapremove" and v.a[2][1].op == k.op and v.a[2][1] is not k:
            v = v.a[2][0]
        return v

    def map_get(ctx, m_, k):
        v = ctx.val(m_)
        k = ctx.val(k)
        v = others(v, k)
        if v.op == "list":
            out = []
            nos = frozenset()
            for kind, x0, g0 in v.a[0]:
                x, g, ren = fresh(ctx, x0, g0, ("key", k)) if kind == "rep" else (x0, g0, {})
                if x.op == "adt" and len(x.a[3]) == 2:
                    kk, vv = x.a[3]
                    for (g2, kt), (_, kt0) in zip(alts(kk), alts(x0.a[3][0]) if len(alts(kk)) == len(alts(x0.a[3][0])) else alts(kk)):
                        e = mkeq(kt, k)
                        if e is FALSE:
                            continue
                        if e is TRUE:
                            out.append((g | g2, some(vv)))
                        else:
                            out.append((g | g2 | {(e, True)}, some(vv)))
                            nos |= {(mk("all", e), False)}
                elif x.op == "elem":
                    e = mkeq(mk("fld", x, None, "0"), k)
                    out.append((g | {(e, True)}, some(mk("fld", x, None, "1"))))
                    nos |= {(mk("all", e), False)}
            c = call("mapget", v, k)
            al = [(g | {(mk("is", c, "Some"), True)}, t) for g, t in out]
            al.append((nos | {(mk("is", c, "Some"), False)}, NONE))
            return mkphi(al)
        return call("mapget", v, k)

    HM = "std::collections::HashMap::"
    BM = "std::collections::BTreeMap::"

    @m(HM + "get", BM + "get")
    def _(ctx, a):
        return map_get(ctx, a[0], a[1])

    @m(HM + "contains_key", BM + "contains_key")
    def _(ctx, a):
        out = [(g, mk("bool", var == "Some")) for g, var, x in ctx.opt(map_get(ctx, a[0], a[1]))]
        return mkphi(out)

    @m(HM + "insert", BM + "insert")
    def _(ctx, a):
        v = ctx.val(a[0])
        ctx.event(ctx.callee["path"], "insert", (v, ctx.val(a[1]), ctx.val(a[2])), None, "mapinsert", a)
        put(ctx, a[0], mklist(to_list(ctx, a[0]) + [it(tup(ctx.val(a[1]), a[2]))]))
        return call("mapold", v, ctx.val(a[1]))

    @m(HM + "remove", BM + "remove")
    def _(ctx, a):
        v = ctx.val(a[0])
        k = ctx.val(a[1])
        v = others(v, k)
        r = call("mapremove", v, k)
        ctx.event(ctx.callee["path"], "remove", (v, k), r, "mapremove", a)
        put(ctx, a[0], mk("mut", "mapremove", 0, (v, k)))
        return r

    @m(HM + "keys", BM + "keys", HM + "into_keys", BM + "into_keys")
    def _(ctx, a):
        return mk("iter", mklist([rep(ctx.eng.project(x, None, "0", None), g) for _, x, g in items_of(ctx, a[0], ctx.site())]), 0)

    @m(HM + "values", BM + "values", HM + "into_values", BM + "into_values")
    def _(ctx, a):
        return mk("iter", mklist([rep(ctx.eng.project(x, None, "1", None), g) for _, x, g in items_of(ctx, a[0], ctx.site())]), 0)

    # ---------------------------------------------------------------- strings / bytes
    def parts(ctx, v):
        """Items a byte/character sequence is concatenated from."""
        if v.op == "list" and v.a[0] and all(k == "it" and x.op in ("char",) for k, x, _ in v.a[0]):
            return [it(x) for _, x, _ in v.a[0]]
        return chunks(v)

    def concat(ctx, x, y):
        x, y = ctx.val(x), ctx.val(y)
        return mkcat(parts(ctx, x) + parts(ctx, y))

    S = "std::string::String::"

    @m(S + "pop")
    def _(ctx, a):
        v = ctx.val(a[0])
        cs = chunks(v) if iscat(v) or v.op == "str" else []
        if cs and cs[-1][0] == "it" and not cs[-1][2]:
            x = cs[-1][1]
            if x.op == "char" or x.op == "int":
                put(ctx, a[0], mkcat(cs[:-1]))
                return some(x)
            if x.op == "str" and x.a[0]:
                put(ctx, a[0], mkcat(cs[:-1] + ([it(mk("str", x.a[0][:-1]))] if len(x.a[0]) > 1 else [])))
                return some(mk("char", str(ord(x.a[0][-1]))))
        put(ctx, a[0], mk("mut", "pop", 0, (v,)))
        return mk("call", "pop", (v,))

    @m(S + "push_str", S + "push", "std::fmt::Write::write_str", "std::fmt::Write::write_char", "std::fmt::Write::write_fmt",
       "std::fmt::Formatter::write_str", "std::fmt::Formatter::write_fmt")
    def _(ctx, a):
        put(ctx, a[0], concat(ctx, a[0], a[1]))
        nm = ctx.callee["path"]
        return ok(UNIT) if "fmt" in nm else UNIT

    def concat_items(ctx, v):
        out = []
        for k, x, g in items_of(ctx, v, ctx.site()):
            x = ctx.val(x)
            if k == "it":
                out += parts(ctx, x)
            else:
                out += [rep(y, g | g2) for _, y, g2 in parts(ctx, x)]
        return mkcat(out)

    @m("std::slice::<impl [T]>::concat", "std::slice::Concat::concat")
    def _(ctx, a):
        return concat_items(ctx, a[0])

    @m("std::slice::<impl [T]>::join", "std::slice::Join::join")
    def _(ctx, a):
        return call("join", ctx.val(a[0]), ctx.val(a[1]))

    A = "std::fmt::rt::Argument::new_"

    @m(*(A + k for k in ("display", "debug", "lower_hex", "upper_hex", "lower_exp", "upper_exp", "octal", "binary", "pointer")))
    def _(ctx, a):
        v, how = ctx.val(a[0]), ctx.callee["name"][4:]
        ty = re.sub(r"^(&('\w+ )?(mut )?)+", "", (ctx.callee.get("targs") or [""])[0])
        if how == "display" and (ty in ("str", "std::string::String", "char", "std::fmt::Arguments") or ty.startswith("std::borrow::Cow<") and ty.endswith("str>")):
            return v
        return call(how, v)

    @m("std::fmt::Arguments::new")
    def _(ctx, a):
        v = [ctx.val(x) for x in a]
        if len(v) == 2 and v[1].op == "list" and all(i[0] == "it" for i in v[1].a[0]):
            out = template(const_bytes(v[0]), [i[1] for i in v[1].a[0]])
            if out is not None:
                return mkcat([j for x in out for j in chunks(x)])
        return call("fmt", *v)

    def template(b, args):
        """The pieces of a format template: literals, and arguments in order; None for one with formatting options."""
        out, i, n = [], 0, 0
        while b is not None and i < len(b):
            k = b[i]
            i += 1
            if k == 0:
                return out if i == len(b) else None
            if k < 0x80:
                lit, i = b[i:i + k], i + k
            elif k == 0x80:
                k = b[i] + 256 * b[i + 1]
                lit, i = b[i + 2:i + 2 + k], i + 2 + k
            elif k == 0xc0 and n < len(args):
                out.append(args[n])
                n += 1
                continue
            else:
                return None
            try:
                out.append(mk("str", lit.decode()))
            except UnicodeDecodeError:
                return None
        return None

    @m("std::fmt::Arguments::new_const", "std::fmt::Arguments::from_str")
    def _(ctx, a):
        return ctx.val(a[0])

    # ---------------------------------------------------------------- digests
    @m("sha2::Digest::new", "sha2::digest::Digest::new", "digest::Digest::new")
    def _(ctx, a):
        return EMPTY

    @m("sha2::Digest::update", "sha2::digest::Update::update", "digest::Digest::update", "sha2::digest::Digest::update")
    def _(ctx, a):
        put(ctx, a[0], mklist(to_list(ctx, a[0]) + parts(ctx, ctx.val(a[1]))))
        return UNIT

    @m("sha2::Digest::chain_update", "digest::Digest::chain_update")
    def _(ctx, a):
        return mklist(to_list(ctx, a[0]) + parts(ctx, ctx.val(a[1])))

    @m("sha2::Digest::new_with_prefix")
    def _(ctx, a):
        return mklist(parts(ctx, ctx.val(a[0])))

    def sha(ctx, l):
        v = mkcat(l)
        if v is EMPTY:
            return call("sha256")
        if v.op == "call" and v.a[0] == "concat":
            return call("sha256", *v.a[1])
        return call("sha256", v)

    @m("sha2::Digest::finalize", "digest::Digest::finalize", "sha2::digest::Digest::finalize", "sha2::Digest::finalize_reset")
    def _(ctx, a):
        return sha(ctx, to_list(ctx, a[0]))

    @m("sha2::Digest::digest", "digest::Digest::digest")
    def _(ctx, a):
        return sha(ctx, parts(ctx, ctx.val(a[0])))

    @m("leb128::write::unsigned", "std::io::Write::write_all", "std::io::Write::write")
    def _(ctx, a):
        x = ctx.val(a[1])
        ps = [it(call("leb128", x))] if "leb128" in ctx.callee["path"] else parts(ctx, x)
        ty = ctx.aty[0] if ctx.aty else ""
        if "Vec<u8>" in ty:
            put(ctx, a[0], mkcat(parts(ctx, ctx.val(a[0])) + ps))
        else:
            put(ctx, a[0], mklist(to_list(ctx, a[0]) + ps))
        return ok(UNIT)

    # ---------------------------------------------------------------- iterators
    @m("std::iter::IntoIterator::into_iter", "std::slice::<impl [T]>::iter", HM + "iter", BM + "iter", HM + "into_iter",
       "std::str::<impl str>::chars", "std::str::<impl str>::bytes", V + "drain", "std::slice::<impl [T]>::iter_mut", HM + "drain",
       "std::slice::<impl [T]>::into_vec_iter", I + "by_ref", "std::vec::Vec::iter")
    def _(ctx, a):
        v = ctx.val(a[0])
        if v.op == "iter":
            return a[0] if a[0].op == "ref" else v
        if v.op == "phi" and all(t.op == "iter" for _, t in v.a[0]):
            return v
        nm = ctx.callee["name"]
        if nm in ("drain",):
            i = ctx.val(a[1]) if len(a) > 1 else None
            if i is None or sl(v, i) is v:
                put(ctx, a[0], EMPTY)
            else:
                n, cut = known(v), part(i)
                if n is not None and cut is not None and cut[0] <= (n if cut[1] is None else cut[1]) <= n:
                    lo, hi = cut[0], n if cut[1] is None else cut[1]
                    put(ctx, a[0], mklist(v.a[0][:lo] + v.a[0][hi:]))
                    return mk("iter", mklist(v.a[0][lo:hi]), 0)
                put(ctx, a[0], mk("mut", "drain", 0, (v, i)))
                return mk("iter", sl(v, i), 0)
        return mk("iter", v, 0)

    def known(v):
        """The length of a list known item by item."""
        return len(v.a[0]) if v.op == "list" and all(k == "it" for k, _, _ in v.a[0]) else None

    def part(i):
        """A constant range as (from, to)."""
        f = dict(zip(i.a[2], i.a[3])) if i.op == "adt" and "Range" in i.a[0] else None
        if f is None or any(x.op != "int" for x in f.values()):
            return None
        inc = "Inclusive" in i.a[0]
        return int(f["start"].a[0]) if "start" in f else 0, int(f["end"].a[0]) + inc if "end" in f else None

    @m("std::collections::VecDeque::pop_front")
    def _(ctx, a):
        v = ctx.val(a[0])
        if v.op == "list" and not v.a[0]:
            return NONE
        if v.op == "list" and v.a[0][0][0] == "it":
            put(ctx, a[0], mklist(v.a[0][1:]))
            return some(v.a[0][0][1])
        if v.op in ("list", "phi"):
            put(ctx, a[0], mk("mut", "pop_front", 0, (v,)))
            return call("pop_front", v)
        x, k = v, 0
        if x.op == "call" and x.a[0] == "tail":
            x, k = x.a[1][0], int(x.a[1][1].a[0])
        put(ctx, a[0], call("tail", x, mk("int", str(k + 1))))
        return getn(ctx, x, mk("int", str(k)))

    @m(V + "remove", V + "swap_remove", "std::collections::VecDeque::remove")
    def _(ctx, a):
        v, i = ctx.val(a[0]), ctx.val(a[1])
        nm = ctx.callee["name"]
        opt = "VecDeque" in ctx.callee["path"]
        n = known(v)
        if n is not None and i.op == "int" and 0 <= int(i.a[0]) < n:
            k, l = int(i.a[0]), list(v.a[0])
            x = l[k][1]
            if nm == "swap_remove":
                l[k] = l[-1]
                l.pop()
            else:
                del l[k]
            put(ctx, a[0], mklist(l))
        elif v.op not in ("list", "phi") and i is ZERO and nm == "remove":
            x, k = v, 0
            if x.op == "call" and x.a[0] == "tail":
                x, k = x.a[1][0], int(x.a[1][1].a[0])
            put(ctx, a[0], call("tail", x, mk("int", str(k + 1))))
            if opt:
                return getn(ctx, x, mk("int", str(k)))
            return mk("at", x, mk("int", str(k)))
        else:
            put(ctx, a[0], mk("mut", nm, 0, (v, i)))
            x = mk("at", v, i)
            if opt:
                return call("vremove", v, i)
        return some(x) if opt else x

    @m("std::str::<impl str>::split", "std::str::<impl str>::splitn", "std::str::<impl str>::rsplit", "std::slice::<impl [T]>::chunks",
       "std::str::<impl str>::lines", "std::str::<impl str>::split_whitespace", "std::slice::<impl [T]>::windows",
       "std::str::<impl str>::char_indices", "std::str::<impl str>::split_terminator", "std::slice::<impl [T]>::chunks_exact",
       "std::str::<impl str>::rsplitn")
    def _(ctx, a):
        return mk("iter", call(ctx.callee["name"], *[ctx.val(x) for x in a]), 0)

    @m(I + "next")
    def _(ctx, a):
        ptr = a[0]
        v = ctx.val(ptr)
        if v.op != "iter":
            v = mk("iter", v, "*")
        seq, pos = v.a
        nx = mk("next", seq)
        if pos != "*":
            put(ctx, ptr, mk("iter", seq, pos + 1))
            if seq.op == "list":
                l = seq.a[0]
                if pos < len(l) and all(k == "it" for k, _, _ in l[: pos + 1]):
                    return some(l[pos][1])
                if pos >= len(l):
                    return NONE
            if seq.op != "list":
                return getn(ctx, seq, mk("int", str(pos)))
        # generic element: facts of an earlier element are forgotten
        site = ctx.site()
        its = items_of(ctx, seq, site)
        terms = {x for _, x, _ in its if not isconst(x)}
        fac = ctx.st.facts
        drop = set()
        for f in fac:
            c = f[0]
            if c.op == "is" and c.a[0] is nx:
                drop.add(f)
            elif c.op != "all":
                if any(x.op == "elem" and x in free_elems(c) for x in terms):
                    drop.add(f)
        ctx.st.facts = fac - drop
        al = []
        for k, x, g in its:
            al.append((g | {(mk("is", nx, "Some"), True)}, some(x)))
        al.append((frozenset([(mk("is", nx, "Some"), False)]), NONE))
        return mkphi(al)

    @m(I + "map")
    def _(ctx, a):
        out = []
        l = items_of(ctx, a[0], ctx.site())
        for k, x, g in l:
            al = ctx.invoke_maybe(a[1], [x], g)
            if k == "it" and len(al) == 1:
                out.append(it(al[0][1]))
            elif k == "it":
                out.append(it(mkphi(al)) if al else it(UNIT))
            else:
                for g2, y in al:
                    out += reps(y, g | g2)
        return mk("iter", mklist(out), 0)

    def truths(ctx, al, val):
        out = []
        for g2, y in al:
            for gs in ctx.eng.split_bool(y, val, frozenset()):
                if consistent(g2, gs):
                    out.append(g2 | gs)
        return out

    def one_of(gss):
        """A single guard set implied by the disjunction of the sets."""
        if not gss:
            return None
        common = gss[0]
        for g in gss[1:]:
            common = common & g
        rest = [g - common for g in gss]
        o = or_fact(rest)
        return simp(common | {o} if o else common)

    def forall(f, x, own=None):
        """The fact about every item, of which x is one: what does not speak of the item is said once. own: the renaming
        that made x a particular item."""
        c, v = f
        if c.op == "or" and v:
            es = {e for e in t_all(x) if e.op == "elem"}
            es = {e for e in es if e in own.values() or not any(e is not z and e in t_all(z) for z in es)} if own else \
                {e for e in es if not any(e is not z and e in t_all(z) for z in es)}
            here = [s for s in c.a[0] if any(es & free_elems(l) for l, _ in s)]
            rest = [s for s in c.a[0] if s not in here]
            if here and rest and len(here) == 1:
                o = or_fact(rest + [frozenset(forall(l, x, own) if es & free_elems(l[0]) else l for l in here[0])])
                if o:
                    return o
        return (mk("all", c), v)

    def not_items(g):
        """The ways in which an item that is there under these guards is not there."""
        return [frozenset({(c, not v)}) for c, v in g if c.op not in ("or", "inorder", "all", "ovf", "full", "bool") and
                not (c.op == "is" and c.a[0].op == "next")]

    def reached(nm, x):
        """Whether an item is there depends on the items before it, too (which no condition of its own says)."""
        return frozenset() if nm in ("filter", "filter_map") else frozenset({(call(nm, x), True)})

    @m(I + "filter", I + "skip_while", I + "take_while")
    def _(ctx, a):
        out = []
        for k, x, g in items_of(ctx, a[0], ctx.site()):
            al = ctx.invoke_maybe(a[1], [x], g)
            gs = one_of(truths(ctx, al, True))
            nm = ctx.callee["name"]
            if nm == "skip_while":
                gs = frozenset()
            if gs is not None:
                out.append(rep(x, simp(g | gs | reached(nm, x))))
        return mk("iter", mklist(out), 0)

    @m(V + "retain")
    def _(ctx, a):
        out = []
        for k, x, g in items_of(ctx, a[0], ctx.site()):
            al = ctx.invoke_maybe(a[1], [x], g)
            gs = one_of(truths(ctx, al, True))
            if gs is not None:
                out.append(rep(x, simp(g | gs)))
        put(ctx, a[0], mklist(out))
        return UNIT

    @m(I + "filter_map", I + "map_while")
    def _(ctx, a):
        out = []
        for k, x, g in items_of(ctx, a[0], ctx.site()):
            al = ctx.invoke_maybe(a[1], [x], g)
            for g2, y in al:
                sub = [(g3, z) for g3, var, z in ctx.opt(y) if var == "Some"]
                for g3, z in sub:
                    out += reps(z, g | g2 | g3 | reached(ctx.callee["name"], x))
        return mk("iter", mklist(out), 0)

    @m(I + "flat_map")
    def _(ctx, a):
        out = []
        for k, x, g in items_of(ctx, a[0], ctx.site()):
            for g2, y in ctx.invoke_maybe(a[1], [x], g):
                for k3, z, g3 in items_of(ctx, y, ctx.site()):
                    out.append(rep(z, g | g2 | g3))
        return mk("iter", mklist(out), 0)

    @m(I + "flatten")
    def _(ctx, a):
        out = []
        for k, x, g in items_of(ctx, a[0], ctx.site()):
            for k3, z, g3 in items_of(ctx, x, ctx.site()):
                out.append(("it" if k == k3 == "it" else "rep", z, g | g3))
        return mk("iter", mklist(out), 0)

    @m(I + "chain")
    def _(ctx, a):
        return mk("iter", mklist(items_of(ctx, a[0], ctx.site()) + items_of(ctx, a[1], ctx.site())), 0)

    @m("std::iter::once")
    def _(ctx, a):
        return mk("iter", mklist([it(a[0])]), 0)

    @m("std::iter::empty")
    def _(ctx, a):
        return mk("iter", EMPTY, 0)

    @m(I + "zip")
    def _(ctx, a):
        l1, l2 = items_of(ctx, a[0], ctx.site()), items_of(ctx, a[1], ctx.site())
        if all(k == "it" for k, _, _ in l1 + l2):
            return mk("iter", mklist([it(tup(x[1], y[1])) for x, y in zip(l1, l2)]), 0)
        y = mkphi([(g, y) for _, y, g in l2]) if l2 else UNIT
        return mk("iter", mklist([rep(tup(x, y), g) for _, x, g in l1]), 0)

    @m(I + "enumerate")
    def _(ctx, a):
        l = items_of(ctx, a[0], ctx.site())
        if all(k == "it" for k, _, _ in l):
            return mk("iter", mklist([it(tup(mk("int", str(i)), x)) for i, (_, x, _) in enumerate(l)]), 0)
        return mk("iter", mklist([rep(tup(mk("pos", x), x), g) for _, x, g in l]), 0)

    @m(I + "skip", I + "take", I + "step_by")
    def _(ctx, a):
        n = ctx.val(a[1])
        v = ctx.val(a[0])
        nm = ctx.callee["name"]
        if v.op == "iter" and v.a[0].op == "list" and n.op == "int" and all(k == "it" for k, _, _ in v.a[0].a[0]) and v.a[1] == 0 \
                and nm != "step_by":
            l = v.a[0].a[0]
            return mk("iter", mklist(l[int(n.a[0]):] if nm == "skip" else l[: int(n.a[0])]), 0)
        seq = call(nm, seq_id(ctx, a[0]), n)
        return mk("iter", seq, 0)

    @m(I + "rev")
    def _(ctx, a):
        v = ctx.val(a[0])
        if v.op == "iter" and v.a[0].op == "list" and v.a[1] == 0 and all(k == "it" for k, _, _ in v.a[0].a[0]):
            return mk("iter", mklist(v.a[0].a[0][::-1]), 0)
        return mk("iter", call("reversed", seq_id(ctx, a[0])), 0)

    @m(I + "peekable", I + "fuse", I + "inspect", I + "cycle", I + "cloned", I + "copied")
    def _(ctx, a):
        return ctx.val(a[0])

    def quant(ctx, seq, fn, anyp):
        """any (anyp) / all over the items of seq."""
        pos, negs = [], frozenset()
        definite = False
        for k, x, g in items_of(ctx, seq, ctx.site()):
            if k == "rep":
                x, g, ren = fresh(ctx, x, g, ctx.site())
            al = fn(x)
            hits = truths(ctx, al, anyp)
            miss = not_items(g) + truths(ctx, al, not anyp)
            for h in hits:
                if k == "it" and not h and not g and not miss:
                    definite = True
                pos.append((g | h, mk("bool", anyp)))
            c = one_of(miss)
            if c:
                for f in c:
                    if k == "it":
                        negs |= {f}
                    else:
                        negs |= {forall(f, x, ren)}
        if definite:
            return mk("bool", anyp)
        pos.append((negs, mk("bool", not anyp)))
        return mkphi(pos)

    @m(I + "any")
    def _(ctx, a):
        return quant(ctx, a[0], lambda x: ctx.invoke_maybe(a[1], [x]), True)

    @m(I + "all")
    def _(ctx, a):
        return quant(ctx, a[0], lambda x: ctx.invoke_maybe(a[1], [x]), False)

    def findm(wrap, first=True):
        def f(ctx, a):
            pos, negs = [], frozenset()
            for k, x, g in items_of(ctx, a[0], ctx.site()):
                if k == "rep":
                    x, g, ren = fresh(ctx, x, g, ctx.site())
                al = ctx.invoke_maybe(a[1], [x], g)
                for h in truths(ctx, al, True):
                    pos.append((g | h | (negs if first else frozenset()), some(wrap(x))))
                c = one_of(not_items(g) + truths(ctx, al, False))
                for f_ in c or ():
                    negs |= {forall(f_, x, ren)} if k == "rep" else {f_}
            pos.append((negs, NONE))
            return mkphi(pos)
        return f
    M[I + "find"] = findm(lambda x: x)
    M[I + "position"] = findm(lambda x: mk("pos", x))
    M[I + "rposition"] = findm(lambda x: mk("pos", x, "last"), False)

    @m(I + "find_map")
    def _(ctx, a):
        pos, negs = [], frozenset()
        for k, x, g in items_of(ctx, a[0], ctx.site()):
            if k == "rep":
                x, g, ren = fresh(ctx, x, g, ctx.site())
            miss = not_items(g)
            for g2, y in ctx.invoke_maybe(a[1], [x], g):
                for g3, var, z in ctx.opt(y):
                    if var == "Some":
                        pos.append((g | g2 | g3 | negs, some(z)))
                    else:
                        miss.append(simp(g2 | g3))
            c = one_of(miss)
            for f_ in c or ():
                negs |= {forall(f_, x, ren)} if k == "rep" else {f_}
        pos.append((negs, NONE))
        return mkphi(pos)

    @m(I + "for_each", I + "try_for_each")
    def _(ctx, a):
        outs, fine = [], set()
        from engine import State
        plain = ctx.callee["name"] == "for_each"
        its = items_of(ctx, a[0], ctx.site())
        once = all(k == "it" for k, _, _ in its)
        for rnd in range(1 if once else 2):
            if rnd:
                before = dict(ctx.st.mem)
            for k, x, g in its:
                al = ctx.invoke(a[1], [x], g) if once else ctx.invoke_maybe(a[1], [x], g)
                if plain:
                    continue
                well = not_items(g)
                for g2, y in al:
                    for g3, var, z in ctx.res(y):
                        if var == "Err":
                            outs.append((g | g2 | g3, err(z if z is not None else UNIT)))
                        else:
                            well.append(simp(g2 | g3))
                for f in one_of(well) or ():
                    fine.add(f if k == "it" else forall(f, x))
            if rnd:
                ctx.st.mem = ctx.eng.join([State(before, frozenset()), State(ctx.st.mem, frozenset())]).mem
        if plain:
            return UNIT
        outs.append((frozenset(fine), ok(UNIT)))
        return mkphi(outs)

    @m(I + "fold")
    def _(ctx, a):
        acc = a[1]
        its = items_of(ctx, a[0], ctx.site())
        if all(k == "it" for k, _, _ in its):
            for k, x, g in its:
                al = ctx.invoke(a[2], [acc, x])
                acc = mkphi(al) if al else acc
            return acc
        lv = None
        cur = acc
        for rnd in range(3):
            for k, x, g in its:
                al = ctx.invoke_maybe(a[2], [cur, x], g)
                if not al:
                    continue
                nxt = mkphi(al)
                if rnd < 1 or (cur.op == "list" and nxt.op == "list"):
                    cur = ctx.eng.joinvals([(frozenset(), cur), (g, nxt)])
                else:
                    if lv is None:
                        lv = mk("lv", ctx.fr, ctx.b, "fold")
                    import terms
                    terms.LV.setdefault(lv, set()).update(x for x in (cur, nxt, acc) if x is not lv)
                    cur = lv
        return cur

    @m(I + "collect", "std::iter::FromIterator::from_iter", "std::convert::TryInto::collect")
    def _(ctx, a):
        its = items_of(ctx, a[0], ctx.site())
        targs = ctx.callee.get("targs", [])
        if ctx.callee["name"] == "collect":
            dst = targs[1] if len(targs) > 1 else ""
        else:
            dst = targs[0] if targs else ""
        v = ctx.val(a[0])
        if dst.startswith(("std::result::Result", "std::option::Option")):
            isres = dst.startswith("std::result::Result")
            oks, bad, allf = [], [], frozenset()
            for k, x, g in its:
                for g2, var, y in (ctx.res(x) if isres else ctx.opt(x)):
                    if var in ("Ok", "Some"):
                        oks.append((k, y, g | g2) if k == "it" and not g2 else rep(y, g | g2))
                    else:
                        bad.append((g | g2, err(y if y is not None else UNIT) if isres else NONE))
                        f1 = [f for f in g | g2 if f[0].op != "or"]
                        if len(f1) == 1:
                            allf |= {(mk("all", f1[0][0]), not f1[0][1])}
            oks = [rep(x, frozenset(f for f in g if (mk("all", f[0]), f[1]) not in allf)) if k == "rep" else (k, x, g) for k, x, g in oks]
            good = mklist(oks)
            c = mk("collected", mklist(its))
            if not bad:
                return ok(good) if isres else some(good)
            return mkphi([(allf | {(mk("is", c, "Ok"), True)}, ok(good) if isres else some(good))] +
                         [(g | {(mk("is", c, "Ok"), False)}, t) for g, t in bad])
        if dst.startswith("std::string::String") and len(its) and all(k == "it" for k, _, _ in its):
            return concat_items(ctx, mklist(its))
        if dst.startswith(("std::string::String", "std::vec::Vec<u8")) and v.op == "iter" and v.a[0].op == "list" and \
                any(x.op == "elem" for _, x, _ in its):
            # all the elements of X in order are X
            return mkcat([(("rep", x.a[0], g) if g or any(y.op == "elem" for y in subs(x.a[0])) else it(x.a[0]))
                          if x.op == "elem" and k == "rep" else (k, x, g) for k, x, g in its])
        if v.op == "iter" and v.a[0].op != "list" and v.a[1] in (0, "*"):
            if v.a[0].op == "call" and v.a[0].a[0] in ("skip", "take", "split", "splitn", "step_by", "reversed", "chunks"):
                return v.a[0]
            return v.a[0]
        return mklist(its)

    @m(I + "count")
    def _(ctx, a):
        return ctx.eng.length(mklist(items_of(ctx, a[0], ctx.site()))) if ctx.val(a[0]).op != "iter" or ctx.val(a[0]).a[0].op == "list" \
            else mk("len", ctx.val(a[0]).a[0])

    # ---------------------------------------------------------------- closures
    @m("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
    def _(ctx, a):
        args = ctx.val(a[1])
        xs = list(args.a[3]) if args.op == "adt" else [args]
        f = ctx.val(a[0])
        return ctx.merge_now(ctx.invoke(f, xs))

    @m("std::mem::drop", "std::ops::Drop::drop")
    def _(ctx, a):
        return UNIT

    @m("std::str::from_utf8", S + "from_utf8", "std::string::String::from_utf8")
    def _(ctx, a):
        v = ctx.val(a[0])
        if v.op == "str":
            return ok(v)
        c = call("from_utf8", v)
        return mkphi([(frozenset([(mk("is", c, "Ok"), True)]), ok(v)),
                      (frozenset([(mk("is", c, "Ok"), False)]), err(mk("fld", c, "Err", "0")))])

    @m("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
    def _(ctx, a):
        v = ctx.val(a[0])
        t = ctx.callee.get("targs", [])
        name = "try_into:" + (t[0] if "try_from" in ctx.callee["path"] else (t[1] if len(t) > 1 else ""))
        c = call("try_into", v)
        # conversions between byte containers keep the bytes
        return mkphi([(frozenset([(mk("is", c, "Ok"), True)]), ok(v)),
                      (frozenset([(mk("is", c, "Ok"), False)]), err(mk("fld", c, "Err", "0")))])

    # slices of constant range: start
    from engine import Ctx, Diverge

    def diverge(self):
        raise Diverge()
    Ctx.diverge = diverge
