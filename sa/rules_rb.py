"""Rules about the mutable red-black tree: its contents and its cached hashes after every operation."""

import re

from fw import *
from rules_hash import sep

IC = "ic_certification"
TEXT = ("AsHashTree::root_hash",)


def owns(ty):
    """Whether a parameter of this type lets the function change tree nodes."""
    return "Node<" in ty and not re.match(r"&(?:'\w+ )?(?!mut)\S", ty.strip()) and ("Box<" in ty or "&mut" in ty or re.match(r"&'\w+ mut", ty))


def mutates(f):
    return f["crate"] == IC and f["kind"] != "Closure" and any(owns(f["locals"][i][0]) for i in range(1, f["args"] + 1))


def boxed(ty):
    return re.match(r"std::boxed::Box<|alloc::boxed::Box<|Box<", ty.strip()) is not None


def called(f):
    return {x for k, _ in callees(f) for x in (k.get("id"), k.get("rid")) if x}


def reached(calls, x):
    """What is called from x, directly or not."""
    out, todo = set(), [x]
    while todo:
        for y in calls.get(todo.pop(), ()):
            if y not in out:
                out.add(y)
                todo.append(y)
    return out


def under_path(k, x):
    """Whether k is x or a field path from x."""
    while k is not x:
        if k.op != "fld":
            return False
        k = k.a[0]
    return True


def is_some(t):
    return mk("is", t, "Some")


def payload(t):
    return mk("fld", t, "Some", "0")


class Heap:
    """The nodes at the end of one path: `mem` says what was written, `facts` what is known, `ops` and `rebs` which functions
    are known to return trees in order and with good hashes."""

    def __init__(self, mem, facts, ops, rebs, stale=()):
        self.mem, self.ops, self.rebs = mem, ops, rebs
        self.facts = frozenset(f for f in facts if f[0].op != "or")
        self.stale = stale
        self.keys = [k[1] for k in mem if k[0] == "obj"]

    # ---- nodes
    def content(self, x):
        seen = set()
        while ("obj", x) in self.mem and x not in seen:
            seen.add(x)
            x = self.mem[("obj", x)]
        return x

    def fld(self, x, name):
        c = self.content(x)
        while c.op == "upd":
            if c.a[1][1] == name:
                return c.a[2]
            c = c.a[0]
        if c.op == "adt":
            return c.a[3][c.a[2].index(name)]
        return mk("fld", c, None, name)

    def touched(self, x):
        """Whether the node, or one below it, was written to."""
        return self.content(x) is not x or x.op in ("upd", "adt") or any(under_path(k, x) for k in self.keys)

    def opt(self, t, facts):
        """('none',), ('some', node), or ('tree', t)."""
        if ("obj", t) in self.mem:
            t = self.content(t)
        if t.op == "phi":
            t = specialize(t, facts)
        if t.op == "adt":
            return ("none",) if t.a[1] == "None" else ("some", t.a[3][0])
        if t.op == "phi":
            raise Anchor(f"a subtree that differs between paths: {show(t)[:200]}")
        for f, v in facts:
            if f.op == "is" and f.a[0] is t and f.a[1] in ("Some", "None"):
                return ("some", payload(t)) if v == (f.a[1] == "Some") else ("none",)
        return ("tree", t)

    def raw(self, x):
        """The node as it was at the start."""
        return Heap({}, self.facts, self.ops, self.rebs).parts(x)

    def parts(self, x):
        l, r = mk("fld", x, None, "left"), mk("fld", x, None, "right")
        return [("tree", l), ("e", mk("fld", x, None, "key"), mk("fld", x, None, "value")), ("tree", r)]

    def op_of(self, t):
        """(kind, subtree, other arguments) when t is the result of a recursive operation."""
        if t.op == "call" and t.a[0] in self.ops:
            return self.ops[t.a[0]], t.a[1][0], t.a[1][1:]
        if t.op == "mut" and t.a[0] in self.ops and t.a[1] == 0:
            return self.ops[t.a[0]], t.a[2][0], t.a[2][1:]
        return None

    def reb_of(self, t):
        return t.a[1][0] if t.op == "call" and t.a[0] in self.rebs else None

    # ---- order
    def seq(self, t):
        """The entries of an optional subtree, in order."""
        if ("obj", t) in self.mem:
            t = self.content(t)
        o = self.op_of(t)
        if o:
            return [("op", o, t)]
        k = self.opt(t, self.facts)
        if k[0] == "none":
            return []
        if k[0] == "tree":
            return [("tree", k[1])]
        if k[1].op == "fld" and k[1].a[0] is t and not self.touched(k[1]):
            return [("tree", t)]
        return self.seqbox(k[1])

    def seqbox(self, x):
        if not self.touched(x):
            o = self.op_of(x)
            if o:
                return [("op", o, x)]
            r = self.reb_of(x)
            if r is not None:
                return self.seqbox(r)
            if x.op == "fld" and x.a[1] == "Some":
                return [("tree", x.a[0])]
            if x.op not in ("upd", "adt"):
                return [("box", x)]
        return self.contract(self.seq(self.fld(x, "left")) + [("e", self.fld(x, "key"), self.fld(x, "value"))]
                             + self.seq(self.fld(x, "right")))

    def whole(self, b):
        o = self.op_of(b)
        if o:
            return [("op", o, b)]
        r = self.reb_of(b)
        if r is not None:
            return self.seqbox(r)
        if b.op == "fld" and b.a[1] == "Some":
            return [("tree", b.a[0])]
        return [("box", b)]

    def empty(self, t):
        return any(f.op == "is" and f.a[0] is t and f.a[1] in ("Some", "None") and v != (f.a[1] == "Some") for f, v in self.facts)

    def contract(self, q):
        """With the parts of a node that stand next to each other as they did put together again."""
        q = [a for a in q if not (a[0] == "tree" and self.empty(a[1]))]
        again = True
        while again:
            again = False
            for i, a in enumerate(q):
                if a[0] != "e" or a[1].op != "fld" or a[1].a[2] != "key" or a[2].op != "fld" or a[2].a[2] != "value" \
                        or a[1].a[0] is not a[2].a[0]:
                    continue
                b = a[1].a[0]
                lo, hi = i, i + 1
                l, r = mk("fld", b, None, "left"), mk("fld", b, None, "right")
                if not self.empty(l):
                    if not i or not self.same(q[i - 1], l):
                        continue
                    lo = i - 1
                if not self.empty(r):
                    if i + 1 == len(q) or not self.same(q[i + 1], r):
                        continue
                    hi = i + 2
                q = q[:lo] + self.whole(b) + q[hi:]
                again = True
                break
        return q

    def same(self, a, t):
        return a[0] == "tree" and a[1] is t or a[0] == "box" and a[1] is payload(t)

    def base(self, q):
        """The sequence with every recursive operation undone."""
        out = []
        for a in q:
            if a[0] == "op":
                kind, t, rest = a[1]
                out += self.base(self.seqbox(t) if a[1][0].endswith("box") else self.seq(t))
            else:
                out.append(a)
        return self.contract(out)

    # ---- hashes
    def fork_cases(self, ts, facts):
        """Every way the optional subtrees ts can be there or not."""
        out = [facts]
        for t in ts:
            nxt = []
            for f in out:
                if self.opt(t, f)[0] == "tree":
                    t0 = self.content(t)
                    nxt += [f | {(is_some(t0), v)} for v in (True, False) if consistent(f, frozenset([(is_some(t0), v)]))]
                else:
                    nxt.append(f)
            out = nxt
        return out

    def bad(self, x, facts, spine=False):
        """'' when the hashes of node x and of what is below it are those of their contents."""
        if not self.touched(x):
            if x in self.stale and not spine:
                return f"the hash of {show(x)[:80]} is not brought up to date"
            o = self.op_of(x)
            if o:
                return self.bad_arg(o, facts)
            r = self.reb_of(x)
            if r is not None:
                return self.bad(r, facts, spine)
            if x.op not in ("upd", "adt"):
                return ""
        l, r = self.fld(x, "left"), self.fld(x, "right")
        for f in self.fork_cases([l, r], facts):
            hs = []
            for t in (l, r):
                k = self.opt(t, f)
                if k[0] == "none":
                    hs.append(None)
                    continue
                o = self.op_of(self.content(t))
                why = self.bad_arg(o, f) if o else self.bad(k[1], f, spine and t is l)
                if why:
                    return why
                hs.append(self.fld(k[1], "subtree_hash"))
            if spine:
                continue
            h = settle(self.fld(x, "subtree_hash"), f)
            key, value = self.fld(x, "key"), self.fld(x, "value")
            if digest(h, f) == node_hash(f, key, value, *hs):
                continue
            if h.op == "fld" and h.a[2] == "subtree_hash" and h.a[0] not in self.stale and self.unchanged(h.a[0], key, value, hs, f):
                continue
            return (f"with {', '.join(sorted(fact_strs(f - self.facts)))[:200]}: the hash kept is {digest(h, f)!r:.300}, the node's is "
                    f"{node_hash(f, key, value, *hs)!r:.300}")
        return ""

    def bad_arg(self, o, facts):
        kind, t, _ = o
        if kind.endswith("box"):
            return self.bad(t, facts, kind.startswith("least"))
        k = self.opt(t, facts)
        return self.bad(k[1], facts) if k[0] == "some" else ""

    def unchanged(self, b, key, value, hs, f):
        if key is not mk("fld", b, None, "key") or value is not mk("fld", b, None, "value"):
            return False
        for n, h in zip(("left", "right"), hs):
            t = mk("fld", b, None, n)
            k = self.opt(t, f)
            if k[0] == "none" and h is None:
                continue
            if h is None or settle(h, f) is not mk("fld", payload(t), None, "subtree_hash"):
                return False
        return True


def settle(t, d):
    """The value under facts d, as far as it is one."""
    while t is not None and t.op == "phi":
        keep = [y for g, y in t.a[0] if consistent(d, frozenset(x for x in g if x[0].op != "or"))
                and any(consistent(d, k) for k in dnf(g))]
        if len(keep) != 1:
            return t
        t = keep[0]
    return t


def digest(t, d):
    """A hash in normal form: ('fork', x, y), ('labeled', k, x), or what it is."""
    t = settle(t, d)
    if t.op == "call" and t.a[0] == "sha256":
        pre, parts = "", []
        for a in t.a[1]:
            h = const_hex(a)
            if h is not None and not parts:
                pre += h
            else:
                parts.append(a)
        for name in ("fork", "labeled"):
            if "x:" + pre == sep(name) and len(parts) == 2:
                return (name,) + tuple(digest(p, d) for p in parts)
    return show(t)


def node_hash(d, key, value, l, r):
    h = ("labeled", digest(key, d), f"AsHashTree::root_hash({show(value)})")
    if r is not None:
        h = ("fork", h, digest(r, d))
    if l is not None:
        h = ("fork", digest(l, d), h)
    return h


# ---------------------------------------------------------------- order of keys
def compare(facts, key):
    """key term -> the signs `key ? term` may have."""
    out = {}
    for f, v in facts:
        if f.op not in ("lt", "eq"):
            continue
        x, y = f.a
        if key not in (x, y) or x is y:
            continue
        o = y if x is key else x
        yes = {"="} if f.op == "eq" else {"<"} if x is key else {">"}
        out[o] = out.get(o, {"<", "=", ">"}) & (yes if v else {"<", "=", ">"} - yes)
    return out


def keys_in(h, q, cmp):
    """The keys of entries known to be in the sequence, in order."""
    out = []
    for a in q:
        if a[0] == "e":
            out.append(a[1])
            continue
        x = a[1] if a[0] == "box" else payload(a[1]) if a[0] == "tree" else None
        if a[0] == "op":
            t = a[1][1]
            k = ("some", t) if a[1][0].endswith("box") else h.opt(t, h.facts)
            x = k[1] if k[0] == "some" else None
        if x is not None and (h.touched(x) or h.fld(x, "key") in cmp):
            for part in (h.fld(x, "left"), None, h.fld(x, "right")):
                if part is None:
                    out.append(h.fld(x, "key"))
                elif h.opt(part, h.facts)[0] != "none" and not h.op_of(part):
                    out += keys_in(h, h.seq(part), cmp)
    return out


def possible_order(h, q, key):
    """Whether the key can stand somewhere among the sequence's keys, as it compares with them."""
    cmp = compare(h.facts, key)
    ks = [cmp.get(k, set("<=>")) for k in keys_in(h, q, cmp)]
    n = len(ks)
    return any(all((">" if j < i else "<") in k for j, k in enumerate(ks)) for i in range(n + 1)) or \
        any(all((">" if j < i else "=" if j == i else "<") in k for j, k in enumerate(ks)) for i in range(n))


def placed(h, q, i, key):
    """Whether the sequence's entry or operation at i is where `key` belongs."""
    cmp = compare(h.facts, key)
    new = q[i][0] == "e"
    lo = i == 0 or q[i - 1][0] == "e" and any(
        cmp.get(k, set("<=>")) <= ({">"} if not j else {">", "="}) for j, k in enumerate(keys_in(h, q[i - 1:i] + q[i + new:], cmp)))
    hi = i == len(q) - 1 or q[i + 1][0] == "e" and any(
        cmp.get(k, set("<=>")) <= ({"<"} if not j else {"<", "="})
        for j, k in enumerate(reversed(keys_in(h, q[:i + 1 - new] + q[i + 1:i + 2], cmp))))
    return lo and hi


def classify(c):
    """The functions that change nodes: recursive operations by kind, and the ones that only rearrange."""
    fs = [f for f in c.prog.fns.values() if mutates(f)]
    ops, rebs = {}, []
    for f in fs:
        tys = [f["locals"][i][0] for i in range(1, f["args"] + 1)]
        if f["id"] in called(f):
            bx = "Option<" not in tys[0]
            if len(tys) == 1:
                kind = "least"
            elif any("FnOnce" in t or re.fullmatch(r"(impl )?F\w*|impl .*", t) for t in tys[2:]):
                kind = "modify"
            elif len(tys) == 3:
                kind = "insert"
            else:
                kind = "delete"
            ops[f["npath"]] = (kind + (" box" if bx else ""), f)
        elif len(tys) == 1 and boxed(tys[0]) and boxed(f["locals"][0][0]) and "&mut" not in f["locals"][0][0]:
            rebs.append(f)
    return ops, rebs


def tails(c, f, rebs):
    """The rearranging functions whose result f gives back as it is."""
    by = {g["npath"]: g for g in rebs}
    out = set()
    for r in c.paths(f, mutates, boundary=lambda g: g["npath"] in by and g is not f):
        t = r.ret
        t = t.a[3][0] if t.op == "adt" and t.a[1] == "Some" else t
        if t.op == "call" and t.a[0] in by:
            out.add(t.a[0])
    return out


def facts_about(facts, key, rel=("=",)):
    return [k for k, sg in compare(facts, key).items() if sg == set(rel)]


def node_of(k):
    return k.a[0] if k.op == "fld" and k.a[2] == "key" else None


def with_entry(h, q, b):
    """The sequences that result from putting node b's entry back somewhere, with where."""
    e = ("e", mk("fld", b, None, "key"), mk("fld", b, None, "value"))
    return [(i, h.contract(q[:i] + [e] + q[i:])) for i in range(len(q) + 1)]


def show_seq(q):
    return "[" + ", ".join(f"{a[0]} {show(a[1])[:60]}" if a[0] != "op" else f"{a[1][0]}({show(a[1][1])[:60]})" for a in q) + "]"


def going_left(t):
    """The node t is reached from by one step to the left, if it is reached so."""
    if t.op == "ref" and t.a[0][0] == "obj" and [p[1] for p in t.a[1]] == ["left", "0"]:
        return t.a[0][1]
    if t.op == "fld" and t.a[1] == "Some" and t.a[0].op == "fld" and t.a[0].a[2] == "left":
        return t.a[0].a[0]
    return None


def leftmost(h, t, op, seen=()):
    """Whether node t is on the way left from the root of the subtree that the removal `op` is applied to."""
    s_ = op[1][1] if op[1][0].endswith("box") else payload(op[1][1])
    if t is s_ or t in seen:
        return True
    if t.op == "ref" and t.a[0][0] == "obj" and [p[1] for p in t.a[1]] == ["right", "0"]:
        r = h.fld(t.a[0][1], "right")   # where the result of the removal was put
        return h.content(r) is op[2]
    if t.op == "lv":
        return bool(h.lv.get(t)) and all(leftmost(h, x, op, seen + (t,)) for x in h.lv[t])
    x = going_left(t)
    return x is not None and leftmost(h, x, op, seen)


def settled_least(h, b, op):
    """b is the least node of the subtree: reached going left only, and nothing further left."""
    return leftmost(h, b, op) and h.empty(mk("fld", b, None, "left"))


def order_why(h, kind, q, init, args):
    """'' when the sequence q is what operation `kind` makes of `init`."""
    ops = [(i, a) for i, a in enumerate(q) if a[0] == "op"]
    base = h.base(q)
    f = h.facts
    if kind.startswith("rearranged"):
        return "" if not ops and base == init else "the entries are not those of the argument, in their order"
    if kind.startswith("insert"):
        k, v = args
        new = [(i, a) for i, a in enumerate(q) if a[0] == "e" and a[2] is v]
        if ops:
            i, a = ops[0]
            if len(ops) > 1 or new or a[1][0].split()[0] != "insert" or a[1][2] != (k, v):
                return "the entry is not inserted exactly once"
            if not placed(h, q, i, k):
                return "the entry goes into a subtree where its key does not belong"
            return "" if base == init else "the other entries are not kept, in their order"
        if len(new) != 1:
            return "the entry is not inserted exactly once"
        i, a = new[0]
        if base[:i] + base[i + 1:] == init or not [x for x in base if x is not a and x[0] == "e"] and h.contract(q[:i] + q[i + 1:]) == h.contract(init):
            return "" if a[1] is k and placed(h, q, i, k) else "the entry is placed where its key does not belong"
        for b in {node_of(x) for x in facts_about(f, k)} - {None}:
            if a[1] in (k, mk("fld", b, None, "key")) and (i, init) in with_entry(h, q[:i] + q[i + 1:], b):
                return ""
        return "an entry is replaced whose key is another one, or the other entries are not kept in their order"
    if kind.startswith("modify"):
        k, fn = args
        if ops:
            i, a = ops[0]
            if len(ops) > 1 or a[1][0].split()[0] != "modify" or a[1][2] != (k, fn):
                return "the change is not made exactly once"
            if not placed(h, q, i, k):
                return "the change goes into a subtree where the key does not belong"
            return "" if base == init else "the entries are not kept, in their order"
        for b in {node_of(x) for x in facts_about(f, k)} - {None}:
            kb, vb = mk("fld", b, None, "key"), mk("fld", b, None, "value")
            new = [i for i, a in enumerate(q) if a[0] == "e" and a[1] is kb and a[2].op == "mut" and a[2].a[1] == 0
                   and a[2].a[2][0].op == "call" and a[2].a[2][0].a[0] == "apply" and a[2].a[2][0].a[1] == (fn, vb)]
            if len(new) == 1 and (new[0], init) in with_entry(h, q[: new[0]] + q[new[0] + 1:], b):
                return ""
        if q == init == [] or not q and not h.contract(init):
            return ""
        return "the value at the key is not changed by the function given, or not only that"
    if kind.startswith("least"):
        (x,) = args
        if ops:
            i, a = ops[0]
            if len(ops) > 1 or i or a[1][0].split()[0] != "least":
                return "it is not the first entry that is removed, once"
            return "" if base == init else "the other entries are not kept, in their order"
        cand = {x} | {b for a in q for b in (() if a[0] != "e" else (node_of(a[1]),)) if b is not None}
        e = x
        while True:
            cand.add(e)
            l = mk("fld", e, None, "left")
            if (is_some(l), True) not in f:
                break
            e = payload(l)
        for b in cand:
            if h.empty(mk("fld", b, None, "left")) and (0, init) in with_entry(h, q, b):
                return ""
        return "it is not the first entry that is removed, and only that"
    if kind.startswith("delete"):
        (key,) = args
        gone = [node_of(x) for x in facts_about(f, key)]
        if ops:
            i, a = ops[0]
            if len(ops) > 1:
                return "entries are removed more than once"
            k2 = a[1][0].split()[0]
            if k2 == "delete":
                if a[1][2] != (key,) or not placed(h, q, i, key):
                    return "the key is removed from a subtree where it does not belong"
                return "" if base == init else "the other entries are not kept, in their order"
            if k2 != "least" or not i or q[i - 1][0] != "e":
                return "an entry is removed that is not the one with the key"
            m = node_of(q[i - 1][1])
            if m is None or q[i - 1][2] is not mk("fld", m, None, "value") or not settled_least(h, m, a):
                return "what takes the place of the entry is not the least one after it"
            rest = base_without(h, q, i)
            for b in gone:
                if b is not None and (i - 1, init) in with_entry(h, rest, b):
                    return ""
            return "the entry replaced is not the one with the key, or the others are not kept in their order"
        for b in gone:
            if b is not None and any(z == init for _, z in with_entry(h, q, b)):
                return ""
        return "the entry removed is not the one with the key, or not only that"
    return "unknown operation"


def base_without(h, q, i):
    """q without the entry before the removal at i, and with what the removal removed."""
    a = q[i]
    return q[: i - 1] + h.base(h.seqbox(a[1][1]) if a[1][0].endswith("box") else h.seq(a[1][1])) + q[i + 1:]


def judge(c, f, kind, r, ops, rebs, n):
    """The obligations of one path of one function."""
    args = [mk("param", "", f["locals"][i][1] or f"arg{i}", i) for i in range(1, f["args"] + 1)]
    stale = set()
    if kind.startswith("least"):
        e = args[0]
        for _ in range(6):
            stale.add(e)
            e = payload(mk("fld", e, None, "left"))
    h = Heap(r.mem, r.facts, ops, rebs, stale)
    h.lv = r.lv
    init = h.contract([("tree", args[0])] if "Option<" in f["locals"][1][0] else [("box", args[0])])
    out = args[0] if kind.startswith("modify") else r.ret
    if "Option<" in (f["locals"][1][0] if kind.startswith("modify") else f["locals"][0][0]):
        q = h.contract(h.seq(out))
        k = h.opt(out, h.facts)
        box = k[1] if k[0] == "some" else None
    else:
        q, box = h.contract(h.seqbox(out)), out
    if len(args) > 1 and not possible_order(h, h.raw(args[0] if "Option<" not in f["locals"][1][0] else payload(args[0])), args[1]):
        return      # no tree has these keys in this order
    name = last(f["npath"])
    inst = f"{name}, path {n}"
    why = order_why(h, kind, q, init, args[1:] if not kind.startswith("least") else args)
    at = "on the path where " + ", ".join(sorted(fact_strs(h.facts)))[:500]
    c.ob("tree-order", inst, not why, f, f"{why}; {at}; the result is {show_seq(q)}, the argument {show_seq(init)}")
    why = h.bad(box, h.facts) if box is not None else ""
    c.ob("tree-hash", inst, not why, f, f"{why}; {at}")


def tree_type(ty):
    return re.match(r"(&(?:'\w+ )?(?:mut )?)?(\w+::)*RbTree<", ty.strip()) is not None


def search_steps(c, rule, f, r, node, key, found):
    """Every way a search of `f` goes on or ends: `node` is the optional subtree it is at, `found(x)` what it gives for node x."""
    for d, t in by_variant(r):
        at = [node] + [x for x in subs(t) | {y for g, _ in d for y in subs(g)} if x.op == "lv"]
        cmp = compare(d, key)
        good = False
        for n in at:
            x = payload(n)
            sg = cmp.get(mk("fld", x, None, "key"), set("<=>"))
            good |= t is found(x) and sg == {"="}
            good |= t.op == "adt" and t.a[1] == "None" and (is_some(n), False) in d
            good |= t.op == "call" and t.a[0] == f["npath"] and any(
                a is mk("fld", x, None, w) and sg == {g} for a in t.a[1] for w, g in (("left", "<"), ("right", ">")))
        c.ob(rule, f"{last(f['npath'])} ends where the key is, or where it would be", good, f,
             f"gives {show(t)[:200]} when {', '.join(sorted(fact_strs(d)))[:400]}")
    for lv, vals in r.lv.items():
        x = payload(lv)
        for v in vals:
            for g, y in alts(v):
                sg = compare(g, key).get(mk("fld", x, None, "key"), set("<=>"))
                good = y is node or y is mk("fld", x, None, "left") and sg == {"<"} or y is mk("fld", x, None, "right") and sg == {">"}
                c.ob(rule, f"{last(f['npath'])} goes to the side where the key belongs", good, f,
                     f"goes on with {show(y)[:200]} when {', '.join(sorted(fact_strs(g)))[:300]}")


def c20(c):
    c.rule("tree-order", "every operation leaves the entries in key order: insertion adds or replaces the entry with the key, "
                         "deletion removes it, modification changes its value, all others stay as they were, and what rearranges "
                         "nodes changes no entry")
    c.rule("tree-hash", "after every operation the hash kept in a node is the hash of its key, its value and its subtrees")
    c.rule("tree-get", "looking a key up goes left for lesser keys and right for greater ones, gives the value of the entry with "
                       "the key, and nothing only where no subtree is left")
    c.rule("tree-root", "the root hash of a tree is the hash kept in its root, or that of an empty tree; what changes trees from "
                        "outside is insertion, deletion and modification only")
    ops, rebs = classify(c)
    kinds = {p: k for p, (k, _) in ops.items()}
    for k in ("insert", "delete", "modify"):
        c.count("tree-order", f"recursive {k}", len([1 for x in kinds.values() if x.split()[0] == k]), 1)
    n = 0
    need = set()
    for p, (kind, f) in ops.items():
        tl = tails(c, f, rebs)
        need |= tl
        for i, r in enumerate(c.paths(f, mutates, boundary=lambda g: g["npath"] in tl or g["npath"] in kinds and g is not f)):
            judge(c, f, kind, r, kinds, tl, i + 1)
            n += 1
    for f in rebs:
        if f["npath"] in need:
            for i, r in enumerate(c.paths(f, mutates, boundary=lambda g: g["npath"] in kinds)):
                judge(c, f, "rearranged", r, kinds, set(), i + 1)
                n += 1
    c.count("tree-order", "paths", n, 20)
    # ---- what the tree offers
    get = c.fn(IC, "get", pred=lambda f: f["self"] and tree_type(str(f["self"])))
    known = ("insert", "delete", "modify")
    tops = [f for f in c.prog.fns.values() if f["crate"] == IC and f["kind"] != "Closure"
            and any(re.match(r"&(?:'\w+ )?mut ", f["locals"][i][0]) and ("RbTree<" in f["locals"][i][0] and tree_type(f["locals"][i][0])
                                                                         or "Node<" in f["locals"][i][0]) for i in range(1, f["args"] + 1))]
    for f in tops:
        c.ob("tree-root", f"{last(f['npath'])} is known to keep the tree in order", f["name"] in known or not f["public"] and not f["reachable"], f,
             "a public function gives access to the tree's nodes that is none of " + ", ".join(known))
    for kind in known:
        f = c.fn(IC, kind, pred=lambda f: f["self"] and tree_type(str(f["self"])))
        me = mk("param", "", f["locals"][1][1], 1)
        args = [mk("param", "", f["locals"][i][1] or f"arg{i}", i) for i in range(2, f["args"] + 1)]
        root = mk("fld", me, None, "root")
        for i, r in enumerate(c.paths(f, lambda g: mutates(g) or g is f, boundary=lambda g: g["npath"] in ops or g is get)):
            h = Heap(r.mem, r.facts, kinds, set())
            q = h.contract(h.seq(h.fld(me, "root")))
            init = h.contract([("tree", root)])
            absent = any(x.op == "is" and not v and x.a[0].op == "call" and x.a[0].a[0] == get["npath"] and x.a[0].a[1] == (me, args[0])
                         for x, v in r.facts)
            why = "" if absent and q == init and kind != "insert" else order_why(h, kind, q, init, args)
            at = "on the path where " + ", ".join(sorted(fact_strs(h.facts)))[:400]
            c.ob("tree-order", f"RbTree::{kind}, path {i + 1}", not why, f, f"{why}; {at}; the result is {show_seq(q)}")
            k = h.opt(h.fld(me, "root"), h.facts)
            why = ""
            for fs in h.fork_cases([h.fld(me, "root")], h.facts):
                k = h.opt(h.fld(me, "root"), fs)
                o = h.op_of(h.content(h.fld(me, "root")))
                why = why or (h.bad_arg(o, fs) if o else "") or (h.bad(k[1], fs) if k[0] == "some" else "")
            c.ob("tree-hash", f"RbTree::{kind}, path {i + 1}", not why, f, f"{why}; {at}")
    TM.LV.clear()
    r = c.run(get, lambda g: g["id"] in called(g))
    r.lv = dict(TM.LV)
    me, key = (mk("param", "", get["locals"][i][1], i) for i in (1, 2))
    root = mk("fld", me, None, "root")
    rec = {x.a[0] for _, t in alts(r.ret) for x in subs(t) if x.op == "call" and any(y is root for y in x.a[1])}
    if not rec:
        search_steps(c, "tree-get", get, r, root, key, lambda x: some(mk("fld", x, None, "value")))
    for p in rec:
        g = [f for f in c.prog.fns.values() if f["npath"] == p]
        if len(g) != 1:
            raise Anchor(f"{p}: found {len(g)}")
        g = g[0]
        r = c.run(g)
        r.lv = {}
        ps = [mk("param", "", g["locals"][i][1] or f"arg{i}", i) for i in range(1, g["args"] + 1)]
        n_ = [x for x, i in zip(ps, range(1, 9)) if "Node<" in g["locals"][i][0]]
        k_ = [x for x, i in zip(ps, range(1, 9)) if "[u8]" in g["locals"][i][0]]
        if len(n_) != 1 or len(k_) != 1:
            raise Anchor(f"{p}: not a search by key")
        search_steps(c, "tree-get", g, r, n_[0], k_[0], lambda x: some(mk("fld", x, None, "value")))
    rh = c.fn(IC, "root_hash", pred=lambda f: f["self"] and tree_type(str(f["self"])))
    r = c.run(rh, names=["t"])
    cases_ = 0
    for d, t in by_variant(r):
        h = hash_input(t, d)
        if (is_some(mk("fld", mk("param", "", "t", 1), None, "root")), True) in d:
            cases_ += 1
            good = show(t) == "$t.root~Some.0.subtree_hash"
        else:
            cases_ += 1
            good = h == [sep("empty")] and (is_some(mk("fld", mk("param", "", "t", 1), None, "root")), False) in d
        c.ob("tree-root", "root_hash", good, rh, f"{show(t)[:200]} when {sorted(fact_strs(d))}")
    c.count("tree-root", "exits of root_hash", cases_, 2, rh)


# ---------------------------------------------------------------- witnesses
N, LO, HI, KEY, F = (mk("param", "", x, 90 + i) for i, x in enumerate(("N", "LO", "HI", "KEY", "F")))
NONE = mk("adt", "std::option::Option", "None", (), ())


def inner(ty):
    return re.sub(r"^&(?:'\w+ )?(mut )?", "", ty.strip())


def is_ref(ty):
    return re.match(r"std::option::Option<std::boxed::Box<(\w+::)*Node<", inner(ty)) is not None


def gives_tree(ty):
    return re.match(r"(\w+::)*HashTree<", ty) is not None


class Wit:
    """The functions that build witnesses, each judged by what it must show in every case."""

    def __init__(self, c):
        self.c, self.done, self.fs = c, {}, {f["npath"]: f for f in c.prog.fns.values() if f["crate"] == IC and f["kind"] != "Closure"}
        self.three = [f for f in self.fs.values() if f["args"] == 3 and gives_tree(f["locals"][0][0])
                      and all(gives_tree(f["locals"][i][0]) for i in (1, 2, 3))]
        if len(self.three) != 1:
            raise Anchor(f"the function that joins three trees: found {len(self.three)}")
        self.three = self.three[0]
        calls = {}
        for f in c.prog.fns.values():
            if f["crate"] == IC:
                calls.setdefault(f["id"], set()).update(called(f))
                if f["kind"] == "Closure" and "parent" in f:
                    calls.setdefault(f["parent"], set()).add(f["id"])
        self.rec = {f["npath"] for f in self.fs.values() if f["args"] and is_ref(f["locals"][1][0]) and f["id"] in reached(calls, f["id"])}
        self.todo = []
        # what looks for a bound from the root
        self.find = {p for p, f in self.fs.items() if not f["reachable"] and f["args"] == 2 and tree_type(inner(f["locals"][1][0]))
                     and "[u8]" in f["locals"][2][0] and not gives_option_tree(f["locals"][0][0])
                     and re.match(r"(\w+::)*Option<(?!&)", f["locals"][0][0])}

    def boundary(self, g):
        return g["npath"] in self.rec or g is self.three or g["npath"] in self.find

    def run(self, f, args):
        return self.c.run(f, lambda g: self.boundary(g) and g is not f, args=args)

    # ---- what a fact says in a case
    def truth(self, x, case):
        if x.op == "or":
            some_ = False
            for s in x.a[0]:
                q = [None if z is None else z == v for z, v in ((self.truth(y, case), v) for y, v in s)]
                if all(q):
                    return True
                some_ = some_ or not any(z is False for z in q)
            return None if some_ else False
        if x.op == "is":
            t, want = x.a[0], x.a[1]
            for n in ("left", "right"):
                if t is mk("fld", N, None, n):
                    return case[n] == (want == "Some")
            if t.op == "call" and t.a[0] in self.rec and t.a[1]:
                for n in ("left", "right"):
                    if t.a[1][0] is mk("fld", N, None, n):
                        return (case["found " + n] and case[n]) == (want == "Some")
        k = mk("fld", N, None, "key")
        if x.op in ("lt", "eq"):
            for b, n in ((LO, "lo"), (HI, "hi"), (KEY, "key")):
                if n in case and set(x.a) == {k, b}:
                    # case[n] is how the node's key compares with the bound
                    return case[n] == ("=" if x.op == "eq" else "<" if x.a[0] is k else ">")
        if "prefix" in case:
            s_ = show(x).replace(" ", "")
            if s_ in ("lt(len($N.key),len($KEY))",):
                return None if not case["prefix"] else False
            if s_ == "lt(len($KEY),len($N.key))" and case["prefix"]:
                return case["key"] == ">"
            if x.op == "eq" and set(map(show, x.a)) == {"$KEY", "slice($N.key, Range(start: 0, end: len($KEY)))"} \
                    or x.op == "call" and last(x.a[0]) == "starts_with" and list(map(show, x.a[1])) == ["$N.key", "$KEY"]:
                return case["prefix"]
        return None

    def exits(self, r, case):
        """The values the function may give in the case, with the facts that the case does not settle."""
        out = []
        for g, t in alts(r.ret):
            free = []
            for x, v in g | r.facts:
                q = self.truth(x, case)
                if q is None:
                    free.append((x, v))
                elif q != v:
                    break
            else:
                out.append((self.settle(t, case), free))
        return out

    def settle(self, t, case):
        while t.op == "phi":
            keep = [y for g, y in t.a[0] if all(self.truth(x, case) in (v, None) for x, v in g)]
            if len(keep) != 1:
                return t
            t = keep[0]
        return t

    # ---- trees as values
    def tree(self, t, case):
        """The shape of a hash tree."""
        t = self.settle(t, case)
        if t.op == "fld" and t.a[2] == "root":
            return self.tree(t.a[0], case)
        if t.op == "adt" and last(t.a[0]) == "HashTree":
            return self.tree(t.a[3][0], case)
        if t.op == "adt" and last(t.a[0]) == "HashTreeNode":
            p = t.a[3][0].a[3] if len(t.a[3]) == 1 and t.a[3][0].op == "adt" and t.a[3][0].a[0] == "tuple" else t.a[3]
            if t.a[1] == "Empty":
                return ("empty",)
            if t.a[1] == "Pruned":
                return ("pruned", p[0])
            if t.a[1] == "Leaf":
                return ("leaf", p[0])
            if t.a[1] == "Labeled":
                return ("labeled", self.label(p[0]), self.tree(p[1], case))
            return ("fork", self.tree(p[0], case), self.tree(p[1], case))
        if t.op == "call" and t.a[0] == self.three["npath"]:
            return ("three",) + tuple(self.tree(x, case) for x in t.a[1])
        if t.op == "call" and last(t.a[0]) == "apply" and len(t.a[1]) == 2:
            return ("apply", t.a[1][0], t.a[1][1])
        if t.op == "call" and last(t.a[0]) == "as_hash_tree":
            return ("whole", t.a[1][0])
        if t.op == "fld" and t.a[1] == "Some" and t.a[0].op == "call" and t.a[0].a[0] in self.rec:
            return ("part", t.a[0])
        if t.op == "call" and t.a[0] in self.rec:
            return ("part", t)
        return ("?", t)

    def label(self, x):
        return x.a[3][0] if x.op == "adt" and last(x.a[0]) == "Label" else x

    def none(self, s_, case):
        """Whether the shape is the empty tree."""
        if s_[0] == "part":
            sub = s_[1].a[1][0]
            for n in ("left", "right"):
                if sub is mk("fld", N, None, n):
                    return not case[n]
        return s_[0] == "empty"

    def hash(self, s_, case):
        """The digest of a shape."""
        if s_[0] == "empty":
            return ("empty",)
        if s_[0] == "pruned":
            return digest(self.settle(s_[1], case), frozenset())
        if s_[0] == "leaf":
            return ("leaf", show(s_[1]))
        if s_[0] == "labeled":
            return ("labeled", show(s_[1]), self.hash(s_[2], case))
        if s_[0] == "fork":
            return ("fork", self.hash(s_[1], case), self.hash(s_[2], case))
        if s_[0] == "three":
            h = self.hash(s_[2], case)
            if not self.none(s_[3], case):
                h = ("fork", h, self.hash(s_[3], case))
            if not self.none(s_[1], case):
                h = ("fork", self.hash(s_[1], case), h)
            return h
        if s_[0] == "apply":
            if s_[2] is N:
                return ("labeled", "$N.key", "AsHashTree::root_hash($N.value)")
            return f"AsHashTree::root_hash({show(s_[2])})"
        if s_[0] == "whole":
            return f"AsHashTree::root_hash({show(s_[1])})"
        if s_[0] == "part":
            return "empty subtree" if self.none(s_, case) else show(payload(s_[1].a[1][0])) + ".subtree_hash"
        return ("?", show(s_[1]))

    def want_hash(self, case):
        k, v = mk("fld", N, None, "key"), mk("fld", N, None, "value")
        sub = [mk("fld", payload(mk("fld", N, None, n)), None, "subtree_hash") if case[n] else None for n in ("left", "right")]
        return node_hash(frozenset(), k, v, *sub), "$N.subtree_hash"

    # ---- calls to the recursive functions
    def part(self, t, what, args):
        """What a call of a recursive function must satisfy: remembered, judged once per way it is called."""
        f = self.fs[t.a[0]]
        key = (f["npath"], what, tuple(args))
        if key not in self.done:
            self.done[key] = True
            self.todo.append((f, what, list(args)))

    def roles(self, t, names):
        """The role of every argument of a call after the subtree; names: term -> role. None when one has none."""
        out = []
        for a in t.a[1][1:]:
            r = next((n for x, n in names if a is x), None)
            if r is None:
                return None
            out.append(r)
        return out

    def args_of(self, f, roles, kinds):
        """Arguments for judging f: a subtree with a node, bounds of the given kinds."""
        out = []
        for r in roles:
            if r in ("lo", "hi"):
                b = LO if r == "lo" else HI
                ty = inner(f["locals"][len(out) + 2][0])
                adt = re.sub(r"<.*", "", ty)
                out.append(mk("adt", adt if "::" in adt else "rb_tree::KeyBound", kinds[r], ("0",), (b,)))
            else:
                out.append({"f": F, "key": KEY}[r])
        return out

    # ---- ranges
    def judge_range(self, f, roles):
        """f shows of a subtree what lies between its bounds, and hides the rest."""
        import itertools
        c = self.c
        bounds = [r for r in roles if r in ("lo", "hi")]
        name = f["npath"].split("::", 2)[-1]
        for kinds in itertools.product(("Exact", "Neighbor"), repeat=len(bounds)):
            kinds = dict(zip(bounds, kinds))
            args = self.args_of(f, roles, kinds)
            r = self.run(f, [NONE] + args)
            ex = self.exits(r, {"left": False, "right": False})
            good = bool(ex) and all(self.tree(t, {}) == ("empty",) for t, _ in ex)
            c.ob("witness-hash", f"{name}: an empty subtree gives the empty tree", good, f, f"{[show(t)[:200] for t, _ in ex]}")
            r = self.run(f, [some(N)] + args)
            names = list(zip(args, roles))
            for rel in itertools.product("<=>", repeat=len(bounds)):
                for lr in itertools.product((True, False), repeat=2):
                    case = dict(zip(bounds, rel), left=lr[0], right=lr[1])
                    self.one_range(f, name, r, case, kinds, names)

    def one_range(self, f, name, r, case, kinds, names):
        c = self.c
        say = ", ".join([f"key {case[b]} {b} ({kinds[b]})" for b in kinds] + [f"{n} {'there' if case[n] else 'none'}" for n in ("left", "right")])
        lo, hi = case.get("lo", ">"), case.get("hi", "<")
        ordered = not (lo == "<" and hi in "=>" or lo == "=" and hi == ">")
        ex = self.exits(r, case)
        if not ex and not ordered:
            return          # the bounds are the wrong way round: it may refuse
        c.ob("witness-hash", f"{name}: every case has a result", len({self.tree(t, case) for t, _ in ex}) == 1, f,
             f"{say}: {[(show(t)[:150], [show(x)[:100] for x, _ in fr]) for t, fr in ex]}")
        for t, free in ex:
            s_ = self.tree(t, case)
            h = self.hash(s_, case)
            c.ob("witness-hash", f"{name}: the tree has the hash of the subtree", h in self.want_hash(case), f,
                 f"{say}: the digest is {h!r:.400}")
            if not ordered:
                continue
            inside = lo == ">" and hi == "<" or lo in "=>" and hi in "=<" and any(case[b] == "=" and kinds[b] == "Exact" for b in kinds)
            key_only = not inside and lo in "=>" and hi in "=<"
            if s_[0] == "pruned":
                bad = inside or key_only or lo == ">" and case["left"] or hi == "<" and case["right"]
                c.ob("witness-shows", f"{name}: what is in the range is shown", not bad, f, f"{say}: all of it is hidden")
                continue
            ok_ = s_[0] == "three"
            c.ob("witness-shows", f"{name}: a node gives its subtrees and itself", ok_, f, f"{say}: {s_!r:.300}")
            if not ok_:
                continue
            m = s_[2]
            if inside:
                good = m == ("apply", F, N)
            elif key_only:
                good = m[0] == "labeled" and m[1] is mk("fld", N, None, "key") and m[2][0] == "pruned"
            else:
                good = m[0] == "pruned"
            c.ob("witness-shows", f"{name}: an entry is shown when it is in the range, its key alone when it is a neighbour, else hidden",
                 good, f, f"{say}: the entry is given as {m!r:.200}")
            for n, s2, near, far in (("left", s_[1], "lo", "hi"), ("right", s_[3], "hi", "lo")):
                if not case[n]:
                    continue
                reach = lo == ">" if n == "left" else hi == "<"     # whether the subtree reaches into the range
                if s2[0] == "pruned":
                    c.ob("witness-shows", f"{name}: a subtree that reaches into the range is not hidden", not reach, f, f"{say}: the {n} one is")
                    continue
                if s2[0] != "part":
                    c.ob("witness-shows", f"{name}: the {n} subtree is shown as such", False, f, f"{say}: {s2!r:.200}")
                    continue
                call_ = s2[1]
                roles = self.roles(call_, names)
                good = call_.a[1][0] is mk("fld", N, None, n) and roles is not None and "f" in roles
                if good:
                    # the far bound may be left out where all of the subtree is on its near side
                    past = hi in "<=" if n == "left" else lo in "=>"
                    good = (near in roles or near not in kinds) and (far in roles or far not in kinds or past)
                c.ob("witness-shows", f"{name}: a subtree is shown between the same bounds", good, f, f"{say}: the {n} one is {show(call_)[:200]}")
                if good:
                    self.part(call_, "range", roles)

    # ---- one key
    def judge_lookup(self, f, roles):
        import itertools
        c = self.c
        name = f["npath"].split("::", 2)[-1]
        args = self.args_of(f, roles, {})
        r = self.run(f, [NONE] + args)
        c.ob("witness-shows", f"{name}: nothing is found in an empty subtree", all(t.op == "adt" and t.a[1] == "None" for _, t in alts(r.ret)),
             f, show(r.ret)[:200])
        r = self.run(f, [some(N)] + args)
        for rel in "<=>":
            for l, rr, found in itertools.product((True, False), repeat=3):
                side = {">": "left", "<": "right"}.get(rel)     # the node's key is greater: on to the left
                case = {"key": rel, "left": l, "right": rr, "found left": found and side == "left", "found right": found and side == "right"}
                here = rel == "=" or found and case[side]
                say = f"the node's key {rel} the key, left {l}, right {rr}, found below {found}"
                ex = self.exits(r, case)
                c.ob("witness-shows", f"{name}: every case has a result", len({t for t, _ in ex}) == 1, f,
                     f"{say}: {[(show(t)[:150], [show(x)[:100] for x, _ in fr]) for t, fr in ex]}")
                for t, _ in ex:
                    if t.op == "call" and t.a[0] in self.rec:
                        t = some(payload(t)) if here else NONE
                    some_ = t.op == "adt" and t.a[1] == "Some"
                    c.ob("witness-shows", f"{name}: a witness is given when the key is there, and only then", some_ == here, f,
                         f"{say}: {show(t)[:200]}")
                    if not some_:
                        continue
                    s_ = self.tree(t.a[3][0], case)
                    h = self.hash(s_, case)
                    c.ob("witness-hash", f"{name}: the tree has the hash of the subtree", h in self.want_hash(case), f, f"{say}: the digest is {h!r:.400}")
                    v = mk("fld", N, None, "value")
                    if rel == "=":
                        good = s_[0] == "three" and s_[2][0] == "labeled" and s_[2][1] is mk("fld", N, None, "key") and s_[2][2] == ("apply", F, v)
                    else:
                        p = s_[0] == "three" and s_[1 if side == "left" else 3]
                        good = p and p[0] == "part" and p[1].a[1][0] is mk("fld", N, None, side) \
                            and self.roles(p[1], list(zip(args, roles))) == roles
                        if good:
                            self.part(p[1], "lookup", roles)
                    c.ob("witness-shows", f"{name}: the entry with the key is shown as asked", good, f, f"{say}: {s_!r:.300}")

    # ---- bounds
    def judge_bound(self, f, roles, which):
        c = self.c
        name = f["npath"].split("::", 2)[-1]
        args = self.args_of(f, roles, {})
        r = self.run(f, [NONE] + args)
        c.ob("witness-bounds", f"{name}: an empty subtree has no bound", all(t.op == "adt" and t.a[1] == "None" for _, t in alts(r.ret)),
             f, show(r.ret)[:200])
        r = self.run(f, [some(N)] + args)
        import itertools
        for rel, l_, r_ in itertools.product("<=>", (True, False), (True, False)):
            for found in (True, False):
                for prefix in ((False, True) if which == "prefix" else (None,)):
                    if prefix and rel == "<" or rel == "=" and prefix is False:
                        continue
                    if which == "lower":
                        want = {"=": "exact", "<": "right or neighbour", ">": "left"}[rel]
                    elif which == "upper":
                        want = {"=": "exact", "<": "right", ">": "left or neighbour"}[rel]
                    else:
                        want = "left or neighbour" if rel == ">" and not prefix else "right"
                    case = {"key": rel, "left": l_, "right": r_, "found left": found, "found right": found}
                    if prefix is not None:
                        case["prefix"] = prefix
                    ex = self.exits(r, case)
                    say = f"the node's key {rel} the key" + (f", {'with' if prefix else 'without'} the prefix" if prefix is not None else "") \
                        + f", {'something' if found else 'nothing'} found below"
                    c.ob("witness-bounds", f"{name}: every case has a result", len({self.bound(t, case) for t, _ in ex}) == 1, f,
                         f"{say}: {[(show(t)[:150], [show(x)[:100] for x, _ in fr]) for t, fr in ex]}")
                    for t, _ in ex:
                        got = self.bound(t, case)
                        side = want.split()[0]
                        below = found and (l_ if side == "left" else r_)
                        exp = ("Exact",) if want == "exact" else (side,) if below else ("Neighbor",) if "or" in want else ("None",)
                        good = got[0] == exp[0] or got == ("None",) and exp == (side,) and not below
                        if got[0] in ("left", "right"):
                            good = good and self.roles(got[1], list(zip(args, roles))) == roles and got[1].a[0] == f["npath"]
                        c.ob("witness-bounds", f"{name}: the bound is the nearest key on its side", good, f, f"{say}: {show(t)[:200]}, not {want}")

    def bound(self, t, case):
        if t.op == "adt" and t.a[1] == "None":
            return ("None",)
        if t.op == "adt" and t.a[1] == "Some":
            x = t.a[3][0]
            if x.op == "fld" and x.a[1] == "Some":
                return self.bound(x.a[0], case)
            if x.op == "adt" and x.a[3] and x.a[3][0] is mk("fld", N, None, "key"):
                return (x.a[1],)
        if t.op == "call" and t.a[0] in self.rec:
            for n in ("left", "right"):
                if t.a[1][0] is mk("fld", N, None, n):
                    return (n, t) if case["found " + n] and case[n] else ("None",)
        return ("?", show(t)[:100])

    # ---- what joins three trees
    def judge_three(self):
        import itertools
        c, f = self.c, self.three
        ty = [g for g in self.c.prog.fns.values() if g["crate"] == IC and g["name"] in ("pruned", "labeled", "empty", "leaf")
              and g["kind"] != "Closure" and gives_tree(g["locals"][0][0])]
        make = {g["name"]: g for g in ty}
        for n in ("pruned", "labeled", "empty", "leaf"):
            if n not in make:
                raise Anchor(f"{n}: the constructor of a hash tree is gone")

        def build(kind, i):
            if kind == "empty":
                return self.c.run(make["empty"], args=[]).ret
            if kind == "labeled":
                return self.c.run(make[kind], args=[mk("param", "", f"label{i}", 60 + i), self.c.run(make["pruned"], args=[mk("param", "", f"under{i}", 50 + i)]).ret]).ret
            return self.c.run(make[kind], args=[mk("param", "", f"{kind}{i}", 40 + i)]).ret
        n = 0
        for kinds in itertools.product(("empty", "pruned", "labeled", "leaf"), ("pruned", "labeled"), ("empty", "pruned", "labeled", "leaf")):
            args = [build(k, i) for i, k in enumerate(kinds)]
            r = self.c.run(f, args=args)
            sh = [self.tree(a, {}) for a in args]
            keep = [x for x, k in zip(sh, kinds) if k != "empty"]
            want = self.hash(keep[-1], {})
            for x in reversed(keep[:-1]):
                want = ("fork", self.hash(x, {}), want)
            ex = alts(r.ret)
            c.ob("witness-hash", "three trees are joined in every case", bool(ex), f, f"{kinds}: no result")
            for _, t in ex:
                n += 1
                got = self.tree(t, {})
                c.ob("witness-hash", "three trees are joined as the node's hash joins theirs", self.hash(got, {}) == want, f,
                     f"{kinds}: the digest is {self.hash(got, {})!r:.400}")
                leaves = self.flat(got)
                seen = [x for x in keep if x[0] != "pruned"]
                c.ob("witness-shows", "joining three trees hides none", [x for x in leaves if x[0] != "pruned"] == seen, f,
                     f"{kinds}: {got!r:.400}")
        c.count("witness-hash", "joins of three trees", n, 32, f)

    def flat(self, s_):
        return self.flat(s_[1]) + self.flat(s_[2]) if s_[0] == "fork" else [s_]

    # ---- from the root
    def entry(self, t, what):
        """The value of f for the node N must be its key over its value ("value") or the value's hash ("key")."""
        c = self.c
        if t.op == "fn":
            import json
            i = json.loads(t.a[0])
            f = c.prog.fns.get(i.get("rid")) or c.prog.fns.get(i["id"])
            args = [N]
        else:
            f, args = (c.prog.fns.get(t.a[0]), [t, N]) if t.op == "clo" else (None, [])
        if f is None:
            return f"{show(t)[:200]} is not a function of the tree"
        for d, x in by_variant(c.run(f, args=args)):
            s_ = self.tree(x, {})
            v = mk("fld", N, None, "value")
            good = s_[0] == "labeled" and s_[1] is mk("fld", N, None, "key")
            if what == "value":
                good = good and s_[2] == ("whole", v)
            else:
                good = good and s_[2][0] == "pruned" and show(s_[2][1]) == "AsHashTree::root_hash($N.value)"
            if not good:
                return f"{f['name']} gives {s_!r:.300} for a node"
        return ""

    def fails(self, judge, *args):
        """The number of obligations that fail, reporting none of them."""
        c, self.c = self.c, Quiet(self.c)
        try:
            judge(*args)
            return self.c.failed
        except Anchor:
            return 1000
        finally:
            self.c = c

    def judge_walk(self, f, r, key, which):
        """A loop from the root to a bound, with the best one so far."""
        c = self.c
        name = f["npath"].split("::", 2)[-1]
        me = mk("param", "", "t", 1)
        root = mk("fld", me, None, "root")
        pos = [x for x, vs in r.lv.items() if any(y is root for v in vs for _, y in alts(v))]
        best = [x for x in r.lv if x not in pos]
        if len(pos) != 1 or len(best) > 1:
            raise Anchor(f"{name}: no search for a bound")
        pos = pos[0]
        best = best[0] if best else None
        at = payload(pos)
        there, memo = is_some(pos), {}

        def here(t):
            return rewrite(t, lambda x: N if x is at else KEY if x is key else x, memo)
        start = [y for v in r.lv.get(best, []) for g, y in alts(v) if not g]
        c.ob("witness-bounds", f"{name}: there is no bound to start with", all(y.op == "adt" and y.a[1] == "None" for y in start), f,
             f"{list(map(show, start))}"[:300])
        for d, t in by_variant(r):
            if (there, False) in d:
                c.ob("witness-bounds", f"{name}: at an empty subtree the best bound is given", t is best or best is None and show(t) == "None", f, show(t)[:200])
        import itertools
        for rel, l_, r_ in itertools.product("<=>", (True, False), (True, False)):
            for prefix in ((False, True) if which == "prefix" else (None,)):
                if prefix and rel == "<" or rel == "=" and prefix is False:
                    continue
                case = {"key": rel, "left": l_, "right": r_}
                if prefix is not None:
                    case["prefix"] = prefix

                def now(d):
                    return all(self.truth(here(x), case) in (v, None) for x, v in d if x is not there)
                ends = [(here(t), d) for d, t in alts(r.ret) if (there, False) not in d and now(d)]
                ends = [t for t, d in ends if not any(x.op == "is" and x.a[0] is pos and not v for x, v in d)]
                if which != "prefix" and rel == "=":
                    want = ("exact",)
                else:
                    low = {"lower": rel == "<", "upper": False, "prefix": False}[which]
                    up = {"lower": False, "upper": rel == ">", "prefix": rel == ">" and not prefix}[which]
                    side = "left" if rel == ">" and not (which == "prefix" and prefix) else "right"
                    want = (side, low or up)
                say = f"the node's key {rel} the key" + (f", {'with' if prefix else 'without'} the prefix" if prefix is not None else "")
                if want == ("exact",):
                    good = bool(ends) and all(self.bound(t, case) == ("Exact",) for t in ends)
                    c.ob("witness-bounds", f"{name}: the key itself is the bound", good, f, f"{say}: {[show(t)[:100] for t in ends]}")
                    continue
                ends = [t for t in ends if not (t is best or best is None and show(t) == "None")]
                c.ob("witness-bounds", f"{name}: the search goes on", not ends, f, f"{say}: ends with {[show(t)[:100] for t in ends]}")
                to = {here(y) for v in r.lv[pos] for g, y in alts(v) if y is not root and now(g)}
                c.ob("witness-bounds", f"{name}: it goes on to the side of the bound", to == {mk("fld", N, None, want[0])}, f,
                     f"{say}: {sorted(map(show, to))}"[:300])
                if best is None:
                    continue
                keep = {here(y) for v in r.lv[best] for g, y in alts(v) if g and now(g)} or {best}
                good = keep == {best} if not want[1] else len(keep) == 1 and self.bound(next(iter(keep)), case) == ("Neighbor",)
                c.ob("witness-bounds", f"{name}: the nearest key so far is kept", good, f, f"{say}: {sorted(map(show, keep))}"[:300])

    def judge_found(self, f, roles, which):
        """A search from the root: a loop, or the recursive search of the root."""
        TM.LV.clear()
        me, key = mk("param", "", "t", 1), KEY
        r = self.run(f, [me, key])
        r.lv = dict(TM.LV)
        root = mk("fld", me, None, "root")
        if r.lv:
            return self.judge_walk(f, r, key, which)
        for d, t in alts(r.ret):
            if not (t.op == "call" and t.a[0] in self.rec and t.a[1] == (root, key)):
                raise Anchor(f"{last(f['npath'])}: no search for a bound")
            self.judge_bound(self.fs[t.a[0]], roles, which)

    def bound_kind(self, g, roles, wants):
        """Which of the bounds the function finds, judged once."""
        key = (g["npath"], "bound")
        judge = self.judge_found if g["npath"] in self.find else self.judge_bound
        if key not in self.done:
            self.done[key] = min(("lower", "upper", "prefix"), key=lambda k: self.fails(judge, g, roles, k))
            if self.fails(judge, g, roles, self.done[key]):
                # it finds none: report it as what it is used as
                for w in wants:
                    if self.done[key] not in wants:
                        self.done[key] = w
            judge(g, roles, self.done[key])
        return self.done[key]

    def judge_root(self, f, lo, hi, what, lookup=None):
        """f shows the range of keys between the bounds (kind, key), of each the value or the key alone."""
        c = self.c
        name = last(f["npath"])
        TM.LV.clear()
        r = self.run(f, [mk("param", "", f["locals"][i][1] or f"arg{i}", i) for i in range(1, f["args"] + 1)])
        root = mk("fld", mk("param", "", f["locals"][1][1] or "arg1", 1), None, "root")
        seen = set()
        for d, t in by_variant(r):
            facts = ", ".join(sorted(fact_strs(d)))[:300]
            if lookup:
                # found: the witness of the lookup
                hit = [x.a[0] for x, v in d if x.op == "is" and x.a[1] == "Some" and v and x.a[0].op == "call" and x.a[0].a[1][:2] == (root, lookup[0])
                       and self.is_lookup(x.a[0])]
                miss = [x.a[0] for x, v in d if x.op == "is" and x.a[1] == "Some" and not v and x.a[0].op == "call" and x.a[0].a[1][:2] == (root, lookup[0])
                        and self.is_lookup(x.a[0])]
                if hit:
                    seen.add("found")
                    h = hit[0]
                    c.ob("witness-shows", f"{name}: the witness of the key is given when there is one", t is payload(h), f, f"{show(t)[:300]} when {facts}")
                    g = h.a[1][2:]
                    why = self.shown(g[0], lookup[1]) if len(g) == 1 else "it is not given how to show the value"
                    c.ob("witness-shows", f"{name}: the value is shown as asked", not why, f, f"{why} when {facts}")
                    self.part(h, "lookup", ["key", "f"])
                    continue
                c.ob("witness-shows", f"{name}: absence is shown of a key that is not there only", bool(miss), f,
                     f"{show(t)[:300]} when {facts}")
            ok_ = t.op == "call" and t.a[0] in self.rec and t.a[1][0] is root
            c.ob("witness-shows", f"{name}: the range is shown of the whole tree", ok_, f, f"{show(t)[:300]} when {facts}")
            if not ok_:
                continue
            roles, why = [], ""
            spec = {"lo": lo, "hi": hi}
            for a in t.a[1][1:]:
                b = a.a[0] if a.op == "fld" and a.a[1] == "Some" else None
                if b is not None and self.is_bound(b, root):
                    k = self.bound_kind(self.fs[b.a[0]], ["key"], [x[0] for x in spec.values() if x])
                    w = [n for n, x in spec.items() if x == (k, b.a[1][1])]
                    if not w or w[0] in roles:
                        why = f"{show(a)[:200]} is none of the bounds"
                        break
                    if (is_some(b), True) not in d:
                        why = f"it is not known that there is {show(b)[:200]}"
                    roles.append(w[0])
                elif a.op in ("fn", "clo"):
                    why = why or self.entry(a, what)
                    roles.append("f")
                else:
                    why = f"{show(a)[:200]} is neither a bound nor how to show an entry"
                    break
            there = {}
            for n, x in spec.items():
                if x and n not in roles and not why:
                    no = [y for y, v in d if y.op == "is" and y.a[1] == "Some" and not v and self.is_bound(y.a[0], root) and y.a[0].a[1][1] is x[1]
                          and self.bound_kind(self.fs[y.a[0].a[0]], ["key"], [x[0]]) == x[0]]
                    if not no:
                        why = f"the {'lower' if n == 'lo' else 'upper'} bound is left out though there may be one"
            c.ob("witness-bounds", f"{name}: the range has the bounds it is asked for", not why and "f" in roles, f, f"{why}: {show(t)[:300]} when {facts}")
            if not why and "f" in roles:
                seen.add(tuple(sorted(roles)))
                self.part(t, "range", roles)
        want = {("f",)} | ({("f", "hi"), ("f", "lo"), ("f", "hi", "lo")} if lo else set()) | ({"found"} if lookup else set())
        c.ob("witness-shows", f"{name}: every case has a result", seen == want, f, f"{sorted(map(str, seen))}")

    def is_bound(self, t, root):
        return t.op == "call" and len(t.a[1]) == 2 and not self.is_lookup(t) and \
            (t.a[0] in self.rec and t.a[1][0] is root or t.a[0] in self.find and mk("fld", t.a[1][0], None, "root") is root)

    def is_lookup(self, t):
        return t.a[0] in self.rec and gives_option_tree(self.fs[t.a[0]]["locals"][0][0])

    def shown(self, g, want):
        """Whether g is the function asked for, or shows all of a value."""
        if want is not None:
            return "" if g is want else f"the value is shown with {show(g)[:200]}"
        v = mk("fld", N, None, "value")
        f = self.c.prog.fns.get(g.a[0]) if g.op == "clo" else None
        if f is None:
            import json
            p = json.loads(g.a[0]) if g.op == "fn" else {}
            return "" if p.get("path", "").endswith("as_hash_tree") else f"the value is shown with {show(g)[:200]}"
        for d, x in by_variant(self.c.run(f, args=[g, v])):
            if self.tree(x, {}) != ("whole", v):
                return f"the value is shown as {show(x)[:200]}"
        return ""

    def work(self):
        while self.todo:
            f, what, roles = self.todo.pop()
            (self.judge_range if what == "range" else self.judge_lookup)(f, roles)


class Quiet:
    """A check whose obligations are counted only."""

    def __init__(self, c):
        self.c, self.failed = c, 0

    def __getattr__(self, n):
        return getattr(self.c, n)

    def ob(self, rule, what, good, *rest):
        self.failed += not good

    def count(self, rule, what, n, least, *rest):
        self.failed += n < least


def gives_option_tree(ty):
    return re.match(r"(\w+::)*Option<(\w+::)*HashTree<", ty) is not None


def c21(c):
    c.rule("witness-hash", "what is built as a witness has, in every case of a node, its subtrees and the bounds, the hash of the (sub)tree; "
                           "and a value's hash is that of its hash tree")
    c.rule("witness-shows", "an entry is shown when it is asked for or within the range, the key alone of a neighbour, and only what lies outside is hidden")
    c.rule("witness-bounds", "the bounds of a range are the nearest keys at or beyond its ends, or none when there are none")
    w = Wit(c)
    w.judge_three()

    def top(name):
        f = c.fn(IC, name, pred=lambda f: "self" in f and tree_type(str(f["self"])))
        return f, [mk("param", "", f["locals"][i][1] or f"arg{i}", i) for i in range(2, f["args"] + 1)]
    f, (k,) = top("witness")
    w.judge_root(f, ("lower", k), ("upper", k), "key", (k, None))
    f, (k, g) = top("nested_witness")
    w.judge_root(f, ("lower", k), ("upper", k), "key", (k, g))
    f, _ = top("keys")
    w.judge_root(f, None, None, "key")
    for n, what in (("key_range", "key"), ("value_range", "value")):
        f, (a, b) = top(n)
        w.judge_root(f, ("lower", a), ("upper", b), what)
    f, (k,) = top("keys_with_prefix")
    w.judge_root(f, ("lower", k), ("prefix", k), "key")
    tree = [f for f in c.prog.fns.values() if f["crate"] == IC and f["name"] == "as_hash_tree" and f["kind"] != "Closure"]
    mine = [f for f in tree if tree_type(inner(f["locals"][1][0]))]
    if len(mine) != 1:
        raise Anchor(f"as_hash_tree of the tree: found {len(mine)}")
    w.judge_root(mine[0], None, None, "value")
    w.work()
    # ---- a value's hash
    n = 0
    for f in tree:
        me = f["locals"][1][0]
        gs = [g for g in c.prog.fns.values() if g["crate"] == IC and g["name"] == "root_hash" and g["kind"] != "Closure" and g["args"] == 1
              and g["locals"][1][0] == me and g["npath"].rsplit("::", 1)[0] == f["npath"].rsplit("::", 1)[0]]
        if len(gs) != 1:
            raise Anchor(f"the root hash of {me}: found {len(gs)}")
        x = mk("param", "", "x", 1)
        a, b = w.run(f, [x]), w.run(gs[0], [x])
        for d, t in by_variant(a):
            for e, h in by_variant(b):
                if not consistent(d, e):
                    continue
                n += 1
                s_, fs = w.tree(t, {}), d | e
                got, want, pre = w.hash(s_, {}), digest(h, fs), hash_input(h, fs)
                if s_[0] == "part" and (is_some(s_[1].a[1][0]), False) in fs:
                    got = ("empty",)
                if pre and pre[0] in (sep("empty"), sep("leaf")):
                    want = ("empty",) if pre[1:] == [] and pre[0] == sep("empty") else ("leaf", ", ".join(pre[1:]))
                c.ob("witness-hash", f"the root hash of {me} is the digest of its hash tree", got == want, f,
                     f"{got!r:.300}, not {want!r:.300} when {sorted(fact_strs(d | e))}")
    c.count("witness-hash", "hashes of values", n, 6)


RULES = {"C20": c20, "C21": c21}
