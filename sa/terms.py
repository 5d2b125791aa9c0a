"""Hash-consed value-flow terms.

A term names where a value comes from: a parameter, a constant, a field of another term, the result of a call that is
not looked into, an aggregate, a sequence with its items, or a join of alternatives each with the branch facts under
which it is chosen.  Equal terms are the same object."""

_tab = {}
_ctr = [0]


class T:
    __slots__ = ("op", "a", "n", "_subs", "_s")

    def __hash__(self):
        return self.n       # not the address: every run does the same in the same order

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _ctr[0] += 1
        t.n = _ctr[0]
        t._subs = None
        t._s = None
        _tab[k] = t
    return t


UNIT = mk("adt", "tuple", "", (), ())
TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNINIT = mk("uninit")
OPTION, RESULT, CF = "std::option::Option", "std::result::Result", "std::ops::ControlFlow"
NONE = mk("adt", OPTION, "None", (), ())
EMPTY = mk("list", ())


def some(x):
    return mk("adt", OPTION, "Some", ("0",), (x,))


def ok(x):
    return mk("adt", RESULT, "Ok", ("0",), (x,))


def err(x):
    return mk("adt", RESULT, "Err", ("0",), (x,))


def tup(*xs):
    return mk("adt", "tuple", "", tuple(str(i) for i in range(len(xs))), tuple(xs))


def call(path, *args):
    return mk("call", path, tuple(args))


def it(x):
    return ("it", x, frozenset())


def rep(x, g=frozenset()):
    return ("rep", x, g)


def mklist(items):
    return mk("list", tuple(items))


def chunks(v):
    """A byte/character sequence as the items it is concatenated from."""
    if v is EMPTY or (v.op == "str" and v.a[0] == "") or (v.op == "bytes" and v.a[0] == ""):
        return []
    if v.op == "call" and v.a[0] == "concat":
        return [it(x) for x in v.a[1]]
    if v.op == "call" and v.a[0] == "concat_all":
        return list(v.a[1][0].a[0])
    return [it(v)]


def mkcat(items):
    if all(k == "it" for k, _, _ in items):
        xs = []
        for _, x, _ in items:
            xs += [y for _, y, _ in chunks(x)] if not (x.op == "call" and x.a[0] == "concat_all") else [x]
        if not xs:
            return EMPTY
        if len(xs) == 1:
            return xs[0]
        if any(x.op == "call" and x.a[0] == "concat_all" for x in xs):
            out = []
            for x in xs:
                out += chunks(x)
            return call("concat_all", mklist(out))
        return call("concat", *xs)
    return call("concat_all", mklist(items))


def iscat(v):
    return v is EMPTY or (v.op == "call" and v.a[0] in ("concat", "concat_all"))


# ---- loop-carried values: their contents are kept beside the term, which stays the same between passes
LV = {}


def children(t):
    """Data children of a term (no guards)."""
    op = t.op
    if op == "adt":
        return t.a[3]
    if op == "list":
        return tuple(i[1] for i in t.a[0])
    if op == "phi":
        return tuple(x for _, x in t.a[0])
    if op in ("call",):
        return t.a[1]
    if op == "mut":
        return t.a[2]
    if op == "clo":
        return t.a[1]
    if op == "lv":
        return tuple(LV.get(t, ()))
    if op == "upd":
        return (t.a[0], t.a[2])
    return tuple(x for x in t.a if isinstance(x, T))


def subs(t):
    """All subterms through data flow, including t."""
    if t._subs is not None:
        return t._subs
    seen = {t}
    st = [t]
    haslv = False
    while st:
        x = st.pop()
        if x.op == "lv":
            haslv = True
        if x._subs is not None:
            seen |= x._subs
            continue
        for c in children(x):
            if c not in seen:
                seen.add(c)
                st.append(c)
    r = frozenset(seen)
    if not haslv and not any(x.op == "lv" for x in r):
        t._subs = r
    return r


def subst(t, m, memo=None):
    """Replaces subterms (including inside guards)."""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "lv" or not any(x in t_all(t) for x in m):
        memo[t] = t
        return t

    def w(a):
        if isinstance(a, T):
            return subst(a, m, memo)
        if isinstance(a, tuple):
            return tuple(w(x) for x in a)
        if isinstance(a, frozenset):
            return frozenset(w(x) for x in a)
        return a
    if t.op == "eq":
        r = mkeq(subst(t.a[0], m, memo), subst(t.a[1], m, memo))
    elif t.op == "phi":
        r = mkphi([(w(g), w(x)) for g, x in t.a[0]])
    else:
        r = mk(t.op, *[w(a) for a in t.a])
    memo[t] = r
    return r


_tall = {}


def t_all(t):
    """All terms a term mentions, guards included."""
    r = _tall.get(t)
    if r is not None:
        return r
    acc = {t}

    def w(a):
        if isinstance(a, T):
            acc.update(t_all(a))
        elif isinstance(a, (tuple, frozenset)):
            for x in a:
                w(x)
    if t.op != "lv":
        for a in t.a:
            w(a)
    r = frozenset(acc)
    _tall[t] = r
    return r


def subst_facts(g, m):
    return frozenset((subst(c, m), v) for c, v in g)


def _g(gs):
    return "{" + ", ".join(sorted(("" if v else "!") + show(c) for c, v in gs)) + "}"


def show(t, depth=0):
    if not isinstance(t, T):
        return str(t)
    if t._s is not None:
        return t._s
    op, a = t.op, t.a
    if depth > 60:
        return "…"
    d = depth + 1
    if op == "str":
        s = repr(a[0])
    elif op in ("int", "bool", "char"):
        s = str(a[0])
    elif op == "bytes":
        s = f"b[{a[0]}]"
    elif op == "param":
        s = f"${a[1]}"
    elif op == "abbr":
        s = a[0]
    elif op == "adt":
        nm = a[0].split("::")[-1]
        if nm == "tuple":
            s = "(" + ", ".join(show(x, d) for x in a[3]) + ")"
        else:
            nm = nm if a[1] in ("", nm) else f"{nm}::{a[1]}" if nm not in ("Option", "Result", "ControlFlow") else a[1]
            s = nm + ("(" + ", ".join((f"{n}: " if not n.isdigit() else "") + show(x, d) for n, x in zip(a[2], a[3])) + ")" if a[3] else "")
    elif op == "list":
        s = "[" + ", ".join((show(x, d) if k == "it" else "*" + show(x, d) + ("|" + _g(g) if g else "")) for k, x, g in a[0]) + "]"
    elif op == "fld":
        s = f"{show(a[0], d)}{'~' + a[1] if a[1] else ''}.{a[2]}"
    elif op == "elem":
        s = f"{'earlier' if isinstance(a[1], tuple) and a[1][0] == 'earlier' else 'each'}({show(a[0], d)})"
    elif op == "at":
        s = f"{show(a[0], d)}[{show(a[1], d)}]"
    elif op == "call":
        s = f"{short(a[0])}({', '.join(show(x, d) for x in a[1])})"
    elif op == "mut":
        s = f"{short(a[0])}!{a[1]}({', '.join(show(x, d) for x in a[2])})"
    elif op == "phi":
        s = "phi<" + " | ".join(show(x, d) + (" if " + _g(g) if g else "") for g, x in a[0]) + ">"
    elif op in ("eq", "bin") and (op == "eq" or a[0] in ("Add", "Mul", "BitAnd", "BitOr", "BitXor")):
        xs = sorted(show(x, d) for x in a if isinstance(x, T))
        s = (op if op == "eq" else a[0]) + "(" + ", ".join(xs) + ")"
    elif op == "bin":
        s = f"{a[0]}({show(a[1], d)}, {show(a[2], d)})"
    elif op == "all":
        s = f"all({show(a[0], d)})"
    elif op == "or":
        s = "OR(" + " / ".join(sorted(_g(x) for x in a[0])) + ")"
    elif op == "is":
        s = f"{show(a[0], d)} is {a[1]}"
    elif op == "clo":
        s = f"closure:{a[0].split('::', 1)[-1]}"
    elif op == "iter":
        s = f"iter({show(a[0], d)}@{a[1]})"
    else:
        s = f"{op}({', '.join(show(x, d) if isinstance(x, T) else str(x) for x in a)})"
    if op != "lv" and len(s) < 4000:
        t._s = s
    return s


def short(p):
    return p.split("::")[-2] + "::" + p.split("::")[-1] if p.count("::") >= 1 else p


def alts(t):
    """Alternatives of a value: [(guards, term)]."""
    if t.op == "phi":
        return list(t.a[0])
    return [(frozenset(), t)]


MAXALT = 48


def possible(g):
    """No value is two variants at once."""
    if len(g) < 2:
        return True
    seen = {}
    for c, v in g:
        if v and c.op == "is" and seen.setdefault(c.a[0], c) is not c:
            return False
    return True


def mkphi(al):
    """Join of alternatives; nested joins are flattened, subsumed alternatives dropped."""
    flat = []
    seen = set()
    if any(c.op == "bool" for g, _ in al for c, _ in g):
        # guards that are constants
        al = [(frozenset(f for f in g if f[0].op != "bool"), t) for g, t in al if not any(c.op == "bool" and bool(c.a[0]) != v for c, v in g)]
    for g, t in al:
        for g2, t2 in alts(t):
            k = (simp(g | g2), t2)
            if k not in seen:
                seen.add(k)
                if possible(k[0]):
                    flat.append(k)
    if not flat and seen:
        flat = [(simp(g | g2), t2) for g, t in al for g2, t2 in alts(t)]
    # drop an alternative whose guards are implied by a weaker one of the same term
    by = {}
    for g, t in flat:
        by.setdefault(t, []).append(g)
    if len(by) == 1:
        (t, gs), = by.items()
        if t.op != "adt" or any(not g for g in gs):
            return t
        if len(gs) > 1:
            pass
    out = []
    for g, t in flat:
        if any(o < g for o in by[t]):
            continue
        out.append((g, t))
    if len(out) > MAXALT:
        m = {}
        for g, t in out:
            m[t] = m[t] & g if t in m else g
        out = [(g, t) for t, g in m.items()]
    if len(out) == 1:
        g, t = out[0]
        if not g:
            return t
    if len(out) > 2 * MAXALT:
        return mk("join", tuple(sorted({t for _, t in out}, key=lambda x: x.n))[0], len(out))
    out.sort(key=lambda x: (x[1].n, sorted((c.n, v) for c, v in x[0])))
    return mk("phi", tuple(out))


# ---- facts: (condition term, truth value)


def neg(f):
    return (f[0], not f[1])


TWO = {"Some": "None", "Ok": "Err", "Continue": "Break", "Found": None}


def is_fact(t, variant, val=True):
    """The fact that enum value t is (not) the given variant, with one name per two-variant enum."""
    if variant == "None":
        return (mk("is", t, "Some"), not val)
    if variant == "Err":
        return (mk("is", t, "Ok"), not val)
    if variant == "Break":
        return (mk("is", t, "Continue"), not val)
    return (mk("is", t, variant), val)


def contradicts(facts, f):
    c, v = f
    if (c, not v) in facts:
        return True
    if c.op == "is" and v:
        x = c.a[0]
        for c2, v2 in facts:
            if v2 and c2.op == "is" and c2.a[0] is x and c2 is not c:
                return True
    if c.op == "eq" and v:
        # equal to two different constants
        k = [x for x in c.a if isconst(x)]
        o = [x for x in c.a if not isconst(x)]
        if len(k) == 1:
            for c2, v2 in facts:
                if v2 and c2.op == "eq" and c2 is not c:
                    k2 = [x for x in c2.a if isconst(x)]
                    o2 = [x for x in c2.a if not isconst(x)]
                    if len(k2) == 1 and o2 and o2[0] is o[0] and k2[0] is not k[0]:
                        return True
        elif len(k) == 2 and k[0] is not k[1]:
            return True
    if v and c.op == "lt":
        return (mk("lt", c.a[1], c.a[0]), True) in facts or (mk("eq", *order(*c.a)), True) in facts
    if v and c.op == "eq":
        return (mk("lt", *c.a), True) in facts or (mk("lt", c.a[1], c.a[0]), True) in facts
    return False


def consistent(facts, gs):
    return not any(contradicts(facts, f) for f in gs)


def isconst(t):
    return t.op in ("str", "int", "bool", "bytes", "char") or (t.op == "adt" and all(isconst(x) for x in t.a[3])) or \
        (t.op == "list" and all(k == "it" and isconst(x) for k, x, _ in t.a[0]))


def order(a, b):
    return (a, b) if a.n <= b.n else (b, a)


def mkeq(a, b):
    if a is b:
        return TRUE
    if isconst(a) and isconst(b):
        ca, cb = const_bytes(a), const_bytes(b)
        if ca is not None and cb is not None:
            return TRUE if ca == cb else FALSE
        if a.op == b.op and a.op in ("int", "bool", "char"):
            return FALSE
    if a.op == b.op == "adt" and a.a[1] == b.a[1] == "Some" and len(a.a[3]) == len(b.a[3]) == 1:
        return mkeq(a.a[3][0], b.a[3][0])
    if a.op == b.op == "adt" and {a.a[1], b.a[1]} == {"Some", "None"}:
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == "cmp" and y.op == "adt" and y.a[1] in ("Less", "Equal", "Greater") and y.a[0].endswith("Ordering"):
            return mk("lt", *x.a) if y.a[1] == "Less" else mk("lt", x.a[1], x.a[0]) if y.a[1] == "Greater" else mkeq(*x.a)
        # splitting a text gives at least one piece
        if x.op == "int" and x.a[0] in (0, "0") and y.op == "len" and y.a[0].op == "call" and y.a[0].a[0].split("::")[-1] in ("split", "rsplit"):
            return FALSE
    return mk("eq", *order(a, b))


def const_bytes(t):
    if t.op == "str":
        return t.a[0].encode()
    if t.op == "bytes":
        return bytes.fromhex(t.a[0])
    return None


def cond_fact(t, val):
    """Facts that follow when bool term t has value val, in normal form. Returns a list of facts."""
    while True:
        if t.op == "un" and t.a[0] == "Not":
            t, val = t.a[1], not val
            continue
        break
    return [(t, val)]


def condsubs(c):
    """All terms a condition speaks of, through disjunctions and quantifiers."""
    if c.op == "or":
        r = set()
        for s in c.a[0]:
            for f in s:
                r |= condsubs(f[0])
        return r
    if c.op == "all":
        return condsubs(c.a[0])
    return subs(c)


_free = {}


def free_elems(c):
    """The generic elements a condition speaks of, except those that only say what each item of a list is."""
    r = _free.get(c)
    if r is not None:
        return r
    acc = set()

    def w(a):
        if isinstance(a, T):
            acc.update(free_elems(a))
        elif isinstance(a, (tuple, frozenset)):
            for x in a:
                w(x)
    if c.op == "list":
        for k, x, g in c.a[0]:
            es = free_elems(x)
            for f in g:
                es = es | free_elems(f[0])
            if k == "rep":
                top = [y for y in es if not any(y is not z and y in t_all(z) for z in es)]
                if len(top) == 1:
                    es = es - {top[0]}
            acc.update(es)
    else:
        if c.op == "elem":
            acc.add(c)
        if c.op != "lv":
            w(c.a)
    r = frozenset(acc)
    _free[c] = r
    return r


_simp = {}


def simp(fs):
    """Unit propagation on the disjunctions of a fact set."""
    if not any(f[0].op == "or" for f in fs):
        return fs
    r = _simp.get(fs)
    if r is not None:
        return r
    cur = fs
    for _ in range(6):
        nxt = set(f for f in cur if f[0].op != "or")
        flat = frozenset(nxt)
        for f in cur:
            if f[0].op != "or":
                continue
            live = []
            done = False
            for s in f[0].a[0]:
                s2 = simp(s)
                rest = frozenset(x for x in s2 if x not in flat and x not in cur or x == f)
                if not rest:
                    done = True
                    break
                if any(contradicts(flat, x) or other(x) in flat for x in s2):
                    continue
                live.append(rest)
            if done:
                continue
            if len(live) == 1:
                nxt |= live[0]
            elif live:
                o = or_fact(live)
                if o:
                    nxt.add(o)
            else:
                nxt.add(f)
        nxt = frozenset(nxt)
        if nxt == cur:
            break
        cur = nxt
    _simp[fs] = cur
    return cur


def other(f):
    """The negation that quantifies: not all x: c  <->  some x: not c."""
    c, v = f
    return (c.a[0], not v) if c.op == "all" else (mk("all", c), not v)


# ---- disjunctive facts: (or(frozenset of fact sets), True), nested up to a bounded weight
MAXOR = 60


def weight(fs):
    n = 0
    for c, _ in fs:
        n += c.a[1] if c.op == "or" else 1
    return n


# enum value -> the names of all its variants
VARS = {}


def merged(sets):
    """Alternatives that differ only in one condition and its opposite, or cover all variants of a value, are one."""
    for s in sets:
        for f in s:
            for n in (neg(f), other(f)):
                o = s - {f} | {n}
                if o in sets:
                    return sets - {s, o} | {s - {f}}
            c, v = f
            if v and c.op == "is" and c.a[0] in VARS:
                os = {s - {f} | {is_fact(c.a[0], n)} for n in VARS[c.a[0]]}
                if os <= sets:
                    return sets - os | {s - {f}}
    return None


def onlyset(sets):
    if len(sets) != 1 or not all(sets):
        return None
    (s,) = sets
    return next(iter(s)) if len(s) == 1 else (mk("or", frozenset([s]), weight(s)), True)


def pruned(s):
    """A fact set without the alternatives that its own conditions exclude; None when nothing is left of one."""
    flat = frozenset(f for f in s if f[0].op != "or")
    out = set(flat)
    for c, v in s - flat:
        live = [x for x in c.a[0] if any(consistent(flat, y) for y in dnf(x))]
        if not live:
            return None
        if len(live) == 1:
            out |= live[0]
        elif o := (c, v) if len(live) == len(c.a[0]) else or_fact(live):
            out.add(o)
    return frozenset(out)


def or_fact(sets):
    """A fact implied by the disjunction of the fact sets, or None if it would say nothing."""
    sets = set(frozenset(s) for s in sets)
    while all(sets):
        m = merged(sets)
        if m is None:
            break
        sets = m
    if not all(sets) or len(sets) < 2:
        return onlyset(sets)
    # a negated single literal of one side is implied on the others
    changed = True
    while changed:
        changed = False
        for s in list(sets):
            if len(s) == 1:
                (f,) = s
                if f[0].op == "or":
                    if len(sets) > 1:
                        sets.discard(s)
                        sets |= f[0].a[0]
                        changed = True
                    continue
                for n in (neg(f), other(f)):
                    for o in list(sets):
                        if o is not s and n in o:
                            sets.discard(o)
                            if len(o) == 1:
                                return None
                            sets.add(o - {n})
                            changed = True
        if changed:
            continue
        for s in list(sets):
            if any(o < s for o in sets):
                sets.discard(s)
                changed = True
    if len(sets) < 2:
        return onlyset(sets)
    if sum(weight(s) for s in sets) > MAXOR:
        sets = set(filter(None, map(pruned, sets)))
        if len(sets) < 2:
            return onlyset(sets)
    if sum(weight(s) for s in sets) > MAXOR:
        sets = set(frozenset(f for f in s if f[0].op != "or") for s in sets)
        if not all(sets) or len(sets) < 2 or sum(map(len, sets)) > MAXOR:
            return None
    return (mk("or", frozenset(sets), sum(weight(s) for s in sets)), True)


def dnf(facts, limit=512):
    """Conjunctive fact sets whose disjunction is implied by facts; inconsistent ones are dropped."""
    base = frozenset(f for f in facts if f[0].op != "or")
    ors = sorted((f[0] for f in facts if f[0].op == "or" and f[1]), key=lambda c: c.a[1])
    out = [base]
    for c in ors:
        subs_ = []
        for s in c.a[0]:
            subs_ += dnf(s, limit)
        new = set()
        for b in out:
            for s in subs_:
                if consistent(b, s):
                    new.add(b | s)
        if len(new) > limit:
            continue
        out = list(new)
    return out


def entails(facts, pred):
    """pred holds on every disjunct of the facts."""
    return all(pred(d) for d in dnf(facts))
