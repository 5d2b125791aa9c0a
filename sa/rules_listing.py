"""Rules about what is listed: the entries of a tree in order (C41), the assets of a router (C42)."""

from fw import *
from rules_http import by_self
from tabulate import Node, Stuck, Unreadable, ev, holds

IC = "ic_certification"
AC = "ic_asset_certification"
HC = "ic_http_certification"
NO = lambda f: False


# ---- the state of an iterator: which node it is at, and what of it was visited

def trees(n):
    if n == 0:
        yield None
        return
    for k in range(n):
        for l in trees(k):
            for r in trees(n - 1 - k):
                yield (l, r)


def build(shape):
    if shape is None:
        return ("None",)
    return ("Some", Node(left=build(shape[0]), right=build(shape[1]), key=object(), value=object()))


def chains(t, above=()):
    """The ways from the root to every node."""
    if t[0] == "None":
        return
    yield above + (t[1],)
    yield from chains(t[1]["left"], above + (t[1],))
    yield from chains(t[1]["right"], above + (t[1],))


def turn(s):
    """The state after one step."""
    ps, visit = s["parents"], s["visit"][0]
    tip = ps[-1]
    if visit == "Pre":
        return dict(visit=("Pre",), parents=ps + (tip["left"][1],)) if tip["left"][0] == "Some" else dict(visit=("In",), parents=ps)
    if visit == "In":
        return dict(visit=("Pre",), parents=ps + (tip["right"][1],)) if tip["right"][0] == "Some" else dict(visit=("Post",), parents=ps)
    up = ps[:-1]
    return dict(visit=("In",) if up and up[-1]["left"] == ("Some", tip) else ("Post",), parents=up)


def said(s):
    return f"{len(s['parents'])} nodes deep, {s['visit'][0]}-visit, " + (
        "no node" if not s["parents"] else f"the node has {'a' if s['parents'][-1]['left'][0] == 'Some' else 'no'} left and {'a' if s['parents'][-1]['right'][0] == 'Some' else 'no'} right child")


def iterator(c):
    c.rule("an iterator starts at the root", "iter() has visited nothing: it is at the root, or nowhere in an empty tree")
    c.rule("a turn of the iterator", "each turn goes to the left child, else to the node itself, then to the right child, else back up, to the parent itself if it comes from its left child")
    c.rule("what the iterator yields", "it yields the key and value of a node exactly when it comes to the node itself, and ends exactly when there is nowhere left to go")
    it = by_self(c, IC, "iter", "RbTree")
    TM.LV.clear()
    r = c.run(it, NO, names=["self"])
    me = TM.mk("param", "", "self", 1)
    top = build((None, None))
    for what, root, want in (("of a tree", top, (top[1],)), ("of an empty tree", ("None",), ())):
        try:
            m, env = {}, {me: dict(root=root)}
            got = [ev(t, env, m) for g, t in alts(r.ret) if holds(g | r.facts, env, m)]
            bad = None if len(got) == 1 and got[0].get("visit") == ("Pre",) and got[0].get("parents") == want else \
                f"the states are {[said(x) if 'parents' in x else x for x in got]}"
        except (Unreadable, Stuck) as x:
            bad = f"not of the form this rule reads: {x}"
        c.ob("an iterator starts at the root", what, bad is None, it, bad or "")

    f = [x for x in c.fns(IC, "next") if re.search(r"\bIter\b", str(x.get("self") or ""))]
    if len(f) != 1:
        raise Anchor(f"Iterator::next of rb_tree::Iter: found {len(f)}")
    f = f[0]
    TM.LV.clear()
    r = c.run(f, NO, names=["self"])
    lvs = {lv: [w for w in ws] for lv, ws in TM.LV.items() if any(w is me for w in ws)}
    good = len(lvs) == 1 and len(next(iter(lvs.values()))) == 2
    c.ob("a turn of the iterator", "one loop over the state of the iterator", good, f, f"{[show(x) for x in TM.LV]}")
    if not good:
        return
    lv, ws = next(iter(lvs.items()))
    step = ws[0] if ws[1] is me else ws[1]
    after = r.mem.get(("obj", me), me)
    exits = [(g | r.facts, t) for g, t in alts(r.ret)]
    n, bad, bady = 0, None, None
    # no number in the code is larger than the deepest of these trees
    most = max([abs(int(x.a[0])) for w in [step, after] + [t for _, t in exits] + [k for g, _ in exits for k, _ in g] for x in TM.t_all(w) if x.op == "int"] + [1])
    c.ob("a turn of the iterator", "no number as large as the trees compared", most < 20, f, f"{most}")
    deep = []
    for side in (0, 1):
        sh = None
        for _ in range(min(most, 20) + 3):
            sh = (sh, None) if side == 0 else (None, sh)
        deep.append(sh)
    for k in range(6):
        for shape in trees(k) if k < 5 else deep:
            t = build(shape)
            states = [dict(visit=(v,), parents=p) for p in list(chains(t)) + ([()] if k < 2 else []) for v in ("Pre", "In", "Post")]
            for s in states:
                n += 1
                env = {lv: s}
                try:
                    if s["parents"]:
                        to = turn(s)
                        want = None if to["visit"] != ("In",) or not to["parents"] else ("Some", {"0": to["parents"][-1]["key"], "1": to["parents"][-1]["value"]})
                    else:
                        to, want = s, ("None",)
                    out = []
                    for g, x in exits:
                        m = {}
                        if holds(g, env, m):
                            out.append(ev(x, env, m))
                    if want is None:
                        now = ev(step, env, {})
                        if out:
                            bady = bady or f"from {said(s)}: it returns, where it must go on"
                    else:
                        now = ev(after, env, {})
                        if not out or any(o != want for o in out):
                            bady = bady or f"from {said(s)}: it returns " + ("nothing" if not out else "something else than the node it comes to" if want[0] == "Some" else "an entry") + \
                                (", where it must yield the node" if want[0] == "Some" else ", where it must end")
                    if s["parents"] and (now["visit"], now["parents"]) != (to["visit"], to["parents"]):
                        bad = bad or f"from {said(s)}: it goes to {said(now)}, where it must go to {said(to)}"
                except (Unreadable, Stuck) as x:
                    bad = bad or f"from {said(s)}: not of the form this rule reads: {x}"
    c.ob("a turn of the iterator", "every state over trees of up to four nodes", bad is None, f, bad or "")
    c.ob("what the iterator yields", "every state over trees of up to four nodes", bady is None, f, bady or "")
    c.count("a turn of the iterator", "states compared", n, 200, f)


def in_order(c, f, at, label, seen):
    """Calls within f: the left child first, then the entry itself, then the right child."""
    if f["id"] in seen:
        return
    seen.add(f["id"])
    TM.LV.clear()
    r = c.run(f, NO)
    evs = [e for e in r.events if e.kind in ("rec", "apply")]
    # one call may be seen once for each value the function may have there
    met, once = set(), []
    for e in evs:
        k = (e.frame[0], e.frame[1][0], e.kind, e.args[1:] if e.kind == "apply" else None)
        if e.kind == "rec" or k not in met:
            met.add(k)
            once.append(e)
    evs = once
    given = [e for e in evs if e.kind == "apply"]
    ok = len(given) == 1 and len(given[0].args) == 3
    c.ob("each entry is given in order", f"{label}: one call of the function", ok, f, f"{len(given)} calls")
    if not ok:
        return
    key, value = given[0].args[1:]
    node = key.a[0] if key.op == "fld" and key.a[2] == "key" else None
    ok = node is not None and value is TM.mk("fld", node, value.a[1], "value") if value.op == "fld" else False
    c.ob("each entry is given in order", f"{label}: with the key and value of a node", ok, f, f"({show(key)[:200]}, {show(value)[:200]})")
    if not ok:
        return
    base = show(node)
    c.ob("each entry is given in order", f"{label}: of the node it is at", base in at, f, f"{base}, where {' or '.join(at)} is")
    opt = {f"{base[:-len('~Some.0')]} is Some"} if base.endswith("~Some.0") else set()
    order = []
    for e in evs:
        fs = set(fact_strs(e.facts)) - opt
        if e is given[0]:
            order.append("the entry")
            c.ob("each entry is given in order", f"{label}: whenever there is one", not fs, f, f"only if {sorted(fs)[:4]}")
            continue
        ch = [ (s_, x) for x in e.args for s_ in ("left", "right") if show(x) in (f"{base}.{s_}", f"{base}.{s_}~Some.0")]
        side = ch[0][0] if ch else "?"
        order.append(side)
        c.ob("each entry is given in order", f"{label}: the {side} child is gone into whenever there is one", fs <= {f"{base}.{side} is Some"}, f, f"only if {sorted(fs)[:4]}")
        for g in c.fns(IC, last(e.path)):
            ps = [f"${g['locals'][i][1] or f'arg{i}'}" for i in range(1, g["args"] + 1)]
            in_order(c, g, {f"{p}~Some.0" for p in ps} | set(ps), g["name"], seen)
    c.ob("each entry is given in order", f"{label}: left, entry, right", order == ["left", "the entry", "right"], f, f"the order is {order}")


def spread(t):
    """The lists a list is joined from: (kind, term)."""
    if t.op == "call" and last(t.a[0]) == "concat":
        return [y for x in t.a[1] for y in spread(x)]
    if t.op == "list":
        out = []
        for k, x, g in t.a[0]:
            if k == "it":
                out.append(("item", x))
            elif k == "rep" and x.op == "elem" and not g:
                out += spread(x.a[0])
            else:
                out.append(("?", x))
        return out
    return [("list", t)]


def paths(c):
    c.rule("every leaf's path is listed", "a leaf is listed with the labels that lead to it, a labelled node lists its subtree with its label added, a fork what both sides list, left first, and empty and pruned nodes nothing")
    pub = by_self(c, IC, "list_paths", "HashTree")
    rec = [f for f in c.fns(IC, "list_paths") if "HashTreeNode" in str(f.get("self"))]
    TM.LV.clear()
    r = c.run(pub, NO, names=["self"])
    inner = {last(e.path): e for e in r.events if e.kind == "rec"}
    c.ob("every leaf's path is listed", "one function lists the nodes", len(inner) == 1, pub, f"{sorted(inner)}")
    if len(inner) != 1:
        return
    nm = next(iter(inner))
    # which argument is the node; the other is the path
    at = next((i for i, x in enumerate(inner[nm].args) if ".root" in show(x)), 0)
    shape(c, pub, r, "$self.root", [], nm, "from the root", at)
    gs = [g for g in c.fns(IC, nm) if g["id"] != pub["id"]]
    c.ob("every leaf's path is listed", f"{nm} is one function", len(gs) == 1, pub)
    for g in gs:
        TM.LV.clear()
        ns = [f"{g['locals'][i][1] or f'arg{i}'}" for i in range(1, g["args"] + 1)]
        r = c.run(g, NO)
        shape(c, g, r, f"${ns[at]}", [("list", f"${ns[1 - at]}")], nm, "from a node", at)


def shape(c, f, r, node, path, nm, label, at):
    got = {}
    for v in ("Empty", "Fork", "Labeled", "Leaf", "Pruned"):
        for d, t in by_variant(r):
            fs = {x for x in fact_strs(d)}
            if f"{node} is {v}" in fs:
                more = {x for x in fs if not x.startswith(f"{node} is ") and not x.startswith("OR(") and not x.startswith(f"!{node} is ")}
                got.setdefault(v, set()).add((tuple(norm_item(k, x, nm, at) for k, x in spread(plain(t))), tuple(sorted(more))))

    def listed(n, p):
        return ("list", f"{nm}({n}; {' '.join(p)})")
    p = [x for _, x in path]
    want = {"Empty": (), "Pruned": (), "Leaf": (("item", " ".join(p)),), "Labeled": (listed(f"{node}~Labeled.1", p + [f"{node}~Labeled.0"]),),
            "Fork": (listed(f"{node}~Fork.0.0", p), listed(f"{node}~Fork.0.1", p))}
    for v, w in want.items():
        c.ob("every leaf's path is listed", f"{label}: {v}", got.get(v) == {(w, ())}, f, f"lists {sorted(got.get(v, []))}, where {w} is due")


def norm_item(kind, x, nm, at):
    def items(t):
        return " ".join(show(y) for _, y in spread(t))
    if x.op == "call" and last(x.a[0]) == nm and len(x.a[1]) == 2:
        a, b = x.a[1] if not at else x.a[1][::-1]
        return kind, f"{nm}({show(a)}; {items(b)})"
    return kind, items(x) if kind == "item" else show(x)


def c41(c):
    iterator(c)
    c.rule("each entry is given in order", "for_each goes into the left child, then gives the node's key and value to the function, then goes into the right child")
    f = by_self(c, IC, "for_each", "RbTree")
    in_order(c, f, {"$self.root~Some.0"}, "for_each", set())
    c.rule("a tree is collected from all pairs", "from_iter inserts the key and value of every item into the tree it returns, which starts empty")
    fs = [x for x in c.fns(IC, "from_iter") if "RbTree" in str(x.get("self"))]
    if len(fs) != 1:
        raise Anchor(f"FromIterator for RbTree: found {len(fs)}")
    TM.LV.clear()
    ins = {x["id"] for x in c.fns(IC, "insert") if "RbTree" in str(x.get("self"))}
    r = c.run(fs[0], lambda g: g["id"] in ins, names=["iter"])
    es = [e for e in r.events if e.kind == "boundary"]
    want = ["each($iter).0", "each($iter).1"]
    bad = [x for x in [([show(plain(a)) for a in e.args[1:]], set(fact_strs(e.facts)) - {"next($iter) is Some"}) for e in es] if x != (want, set())]
    c.ob("a tree is collected from all pairs", "every item is inserted", es and not bad, fs[0], f"inserts {bad}" if bad else "inserts nothing")

    def origin(t, seen):
        """What the tree that is returned was before anything was inserted."""
        if t in seen:
            return set()
        seen.add(t)
        if t.op == "phi":
            return {y for _, x in t.a[0] for y in origin(x, seen)}
        if t.op == "lv":
            return {y for x in TM.LV.get(t, ()) for y in origin(x, seen)}
        if t.op == "mut" and last(t.a[0]) == "insert" and t.a[1] == 0:
            return {True} | origin(t.a[2][0], seen)
        return {t}
    o = origin(r.ret, set())
    start = [x for x in o if x is not True]
    c.ob("a tree is collected from all pairs", "into an empty tree, which is returned", True in o and len(start) == 1 and start[0].op == "adt" and field(start[0], "root") is TM.NONE, fs[0],
         f"returns {show(r.ret)[:300]}, which starts as {[show(x)[:200] for x in start]}")
    f = by_self(c, IC, "is_empty", "RbTree")
    c.rule("empty is without a root", "is_empty is true exactly if there is no root")
    TM.LV.clear()
    r = c.run(f, NO, names=["self"])
    got = {(show(t), frozenset(fact_strs(d))) for g, t in alts(r.ret) for d in dnf(g | r.facts)}
    c.ob("empty is without a root", "both cases", got == {("True", frozenset(["!$self.root is Some"])), ("False", frozenset(["$self.root is Some"]))}, f, str(sorted((a, sorted(b)) for a, b in got)))
    paths(c)


def c42(c):
    c.rule("an asset is found under its key", "get gives the response stored under exactly the path, encoding and starting range asked for, and nothing if there is none")
    mp = lambda n: [f for f in c.fns(AC, n) if "HashMap" in str(f.get("self")) and "AssetMap" in str(f.get("trait") or f["path"])]
    def one(n, fs):
        if len(fs) != 1:
            raise Anchor(f"{n}: found {len(fs)}")
        TM.LV.clear()
        return fs[0], c.run(fs[0], NO)
    f, r = one("AssetMap::get", mp("get"))
    ns = [f["locals"][i][1] or f"arg{i}" for i in range(1, f["args"] + 1)]
    me, path, enc, rng = (f"${n}" for n in ns)
    seen = {}
    for g, t in alts(r.ret):
        for d in dnf(g | r.facts):
            t2, fs = specialize(t, d), {}
            looks = {x for x in TM.subs(t2) if x.op == "call" and last(x.a[0]) == "mapget"} | {y for k, _ in d for y in TM.subs(k) if y.op == "call" and last(y.a[0]) == "mapget"}
            for x in looks:
                k = specialize(x.a[1][1], d)
                enc_ = under(field(k, "encoding"), d) if k.op == "adt" else k
                key = (show(x.a[1][0]), show(field(k, "path")), show(enc_), show(field(k, "range_begin"))) if k.op == "adt" else (show(k),)
                is_ = [v for f_, v in d if f_.op == "is" and f_.a[0] is x]
                val = "None" if t2 is TM.NONE else show(t2).replace(show(x), "MAPGET")
                seen.setdefault((key, tuple(is_)), set()).add(val)
    keys = {k for k, _ in seen}
    texts = {(me, path, e, rng) for e in (enc, f"phi<None if {{!{enc} is Some}} | Some({enc}~Some.0) if {{{enc} is Some}}>", "None", f"Some({enc}~Some.0)")}
    c.ob("an asset is found under its key", "the key is what was asked for", keys and keys <= texts, f, f"looked up: {sorted(keys)}")
    c.ob("an asset is found under its key", "what is found is returned", all(v == ({"Some(MAPGET~Some.0.response)"} if k[1] == (True,) else {"None"}) for k, v in seen.items()) and {k[1] for k in seen} == {(True,), (False,)}, f, str(seen)[:600])
    c.rule("all assets are counted and listed", "len is the number of stored responses, is_empty means none, and iter yields for each its path, encoding, starting range and response")
    f, r = one("AssetMap::len", mp("len"))
    c.ob("all assets are counted and listed", "len", show(r.ret) == "len($self)", f, show(r.ret)[:200])
    f, r = one("AssetMap::is_empty", [x for x in c.fns(AC, "is_empty") if "AssetMap" in x["path"]])
    got = {(show(t), frozenset(fact_strs(d))) for g, t in alts(r.ret) for d in dnf(g | r.facts)}
    c.ob("all assets are counted and listed", "is_empty", {(re.sub(r"(AssetMap::)?len\(\$self\)", "LEN", a), b) for a, b in got} <= {("eq(0, LEN)", frozenset()), ("eq(LEN, 0)", frozenset())}, f, str(got)[:200])
    f, r = one("AssetMap::iter", mp("iter"))
    inner = show(r.ret)
    c.ob("all assets are counted and listed", "iter runs over the whole map", bool(re.fullmatch(r"AssetMapIterator\(inner: (iter\()?\$self(@\d+)?\)?\)", inner)), f, inner[:200])
    f, r = one("AssetMapIterator::next", [x for x in c.fns(AC, "next") if "AssetMapIterator" in str(x.get("self"))])
    got = {(frozenset(fact_strs(d)), show(specialize(t, d))) for g, t in alts(r.ret) for d in dnf(g | r.facts)}
    e = "each($self.inner)"
    want = {(frozenset(["!next($self.inner) is Some"]), "None"),
            (frozenset(["next($self.inner) is Some"]), f"Some((({e}.0.path, {e}.0.encoding, {e}.0.range_begin), {e}.1.response))")}
    c.ob("all assets are counted and listed", "each is yielded with its key", got == want, f, str([(sorted(a), b) for a, b in got])[:700])
    c.rule("the router shows what it stores", "get_assets and get_fallback_assets are the maps that requests are served from, root_hash is the root hash of the router's tree, and a new router has the given tree, or an empty one, and no assets")
    for n, m in (("get_assets", "responses"), ("get_fallback_assets", "fallback_responses")):
        f = by_self(c, AC, n, "AssetRouter")
        TM.LV.clear()
        r = c.run(f, NO, names=["self"])
        c.ob("the router shows what it stores", n, show(r.ret) == f"$self.{m}", f, show(r.ret)[:200])
    f = by_self(c, AC, "root_hash", "AssetRouter")
    TM.LV.clear()
    b = c.bset(f"{HC}:HttpCertificationTree:root_hash") if c.fns(HC, "root_hash", "HttpCertificationTree") else None
    trees_ = {x["id"] for x in c.fns(HC, "root_hash") if "HttpCertificationTree" in str(x.get("self"))}
    r = c.run(f, lambda g: g["id"] in trees_, names=["self"])
    c.ob("the router shows what it stores", "root_hash", bool(re.fullmatch(r"(\w+::)*root_hash\(\$self\.tree\)", show(r.ret))), f, show(r.ret)[:200])
    for n in ("with_tree", "new"):
        f = by_self(c, AC, n, "AssetRouter")
        TM.LV.clear()
        r = c.run(f, lambda g: g["crate"] == HC, names=["tree"])
        t = r.ret
        ok = t.op == "adt" and field(t, "responses") is TM.EMPTY and field(t, "fallback_responses") is TM.EMPTY
        c.ob("the router shows what it stores", f"{n}: no assets", ok, f, show(t)[:300])
        if n == "with_tree" and t.op == "adt":
            c.ob("the router shows what it stores", "with_tree: the given tree", show(field(t, "tree")) == "$tree", f, show(t)[:300])
            ops = [last(e.path) for e in r.events if e.kind == "boundary" and any("$tree" in show(a) for a in e.args)]
            left = {show(k[1]): show(v) for k, v in r.mem.items() if k[0] == "obj" and show(k[1]).startswith("$tree") and v is not k[1]}
            c.ob("the router shows what it stores", "with_tree: the tree as it is", not ops and not left, f, f"calls {ops} on it; changes {list(left.items())[:2]}"[:400])


RULES = {"C41": c41, "C42": c42}
