"""Rules about code that can panic: every such construct an input can reach is shown not to."""

import re

from fw import *
from engine import PANICS, Event, strip_generics
from terms import show, subs
from models import EMPTY

NAT = re.compile(r"u(8|16|32|64|128|size)$")

# calls of other crates that panic on some arguments
HAZARD = [
    (r"^std::ops::Index(Mut)?::index(_mut)?$", "index"),
    (r"::split_at(_mut)?$", "split_at"),
    (r"^std::(vec::Vec|string::String|collections::VecDeque)::(remove|swap_remove|insert|insert_str|split_off|drain|replace_range)$", "at"),
    (r"::(copy_from_slice|clone_from_slice|swap_with_slice)$", "same_len"),
    (r"slice::<impl \[T\]>::(chunks|chunks_exact|windows|rchunks|chunks_mut|chunks_exact_mut)$|::Iterator::step_by$", "positive"),
    (r"slice::<impl \[T\]>::(rotate_left|rotate_right|swap|select_nth_unstable|copy_within)$", "at"),
    (r"::(with_capacity|reserve|reserve_exact|from_elem|repeat|resize)$", "alloc"),
    (r"^std::cell::RefCell::(borrow|borrow_mut|replace|swap)$", "borrow"),
    (r"GenericArray.*::(from_slice|clone_from_slice)$", "unknown"),
    (r"::(div_euclid|rem_euclid|div_ceil|ilog|ilog2|ilog10|next_multiple_of)$", "unknown"),
    (r"^std::time::(Duration|SystemTime|Instant)|^std::ops::(Add|Sub)::.*Duration", "unknown"),
    (r"^std::string::String::truncate$", "unknown"),
    (r"core_verify$", "points"),
    (r"Principal::from_slice$", "principal"),
    (r"^std::ops::(Sub|SubAssign)::", "sub"),
    (r"^std::ops::(Div|Rem|DivAssign|RemAssign)::", "div"),
]
HAZARD = [(re.compile(r), k) for r, k in HAZARD]


def hazard(path, memo={}):
    if path not in memo:
        memo[path] = next((k for r, k in HAZARD if r.search(path)), None)
    return memo[path]


def nodes_of(o, out):
    """Identities of the functions a piece of MIR names."""
    if isinstance(o, dict):
        for k in ("id", "rid"):
            if isinstance(o.get(k), str):
                out.add(o[k])
        for v in o.values():
            nodes_of(v, out)
    elif isinstance(o, list):
        for v in o:
            nodes_of(v, out)
        if len(o) > 1 and isinstance(o[0], str) and o[0] in ("closure", "fn") and isinstance(o[1], str):
            out.add(o[1])


def mentions(prog, f, memo={}):
    """Workspace functions a function names: what it calls, passes on, or closes over."""
    k = f["id"]
    if k not in memo:
        out = set()
        nodes_of(f["blocks"], out)
        for g in prog.fns.values():
            if g.get("parent") == k:
                out.add(g["id"])
        memo[k] = {x for x in out if x in prog.fns and x != k}
    return memo[k]


def reach(prog, roots, stop=lambda f: False):
    seen, todo = {}, list(roots)
    while todo:
        f = todo.pop()
        if f["id"] in seen or stop(f):
            continue
        seen[f["id"]] = f
        todo += [prog.fns[i] for i in mentions(prog, f)]
    return list(seen.values())


# ---------------------------------------------------------------- numbers
class Lin:
    """Linear forms over atoms that are natural numbers: lengths, counters, unsigned values."""

    def __init__(self, facts):
        self.facts = facts
        self.rows = []          # each: (dict atom -> coefficient, constant), meaning sum + constant >= 0
        self.atoms = {}
        self.nz = []
        self.seen = set()
        for c, v in facts:
            self.fact(c, v)

    def atom(self, t):
        k = t.n
        if k not in self.atoms:
            self.atoms[k] = t
            self.rows.append(({k: 1}, 0))
            self.about(t, k)
        return k

    def about(self, t, k):
        """What holds of the value of an atom by what it is."""
        if t.op == "len":
            x = t.a[0]
            if x.op == "call" and x.a[0].split("::")[-1] in ("split", "splitn", "rsplit", "rsplitn"):
                self.ge(self.lin(t), ({}, 1))
                n = x.a[1][-1] if False else None
        # the first place where something is found lies inside what was searched
        if t.op == "fld" and t.a[1] in ("Some", "Ok") and t.a[0].op == "call":
            nm, args = t.a[0].a[0].split("::")[-1], t.a[0].a[1]
            if nm in ("find", "rfind", "position", "rposition", "binary_search", "binary_search_by", "binary_search_by_key") and args:
                n = self.length(args[0])
                pat = args[1] if len(args) > 1 and nm in ("find", "rfind") else None
                w = self.length(pat) if pat is not None and pat.op in ("str", "bytes") else ({}, 1)
                self.ge(n, add(({k: 1}, 0), w))
        if t.op == "call" and t.a[0].split("::")[-1] == "partition_point" and t.a[1]:
            self.ge(self.length(t.a[1][0]), ({k: 1}, 0))
        # std::io::Read::read never claims to have read more than fits
        if t.op == "fld" and t.a[1] == "Ok" and t.a[0].op == "call" and t.a[0].a[0].split("::")[-1] == "read":
            for a in t.a[0].a[1][1:]:
                self.ge(self.length(a), ({k: 1}, 0))
        # an element of a range
        if t.op == "elem":
            m = range_of(t.a[0])
            if m:
                lo, hi, inc = m
                if lo is not None:
                    self.ge(({k: 1}, 0), self.lin(lo))
                if hi is not None:
                    self.ge(self.lin(hi), add(({k: 1}, 0), ({}, 0 if inc else 1)))
        if t.op == "bin" and t.a[0] == "Rem":
            y = self.lin(t.a[2])
            self.ge(y, add(({k: 1}, 0), ({}, 1)))
            self.ge(self.lin(t.a[1]), ({k: 1}, 0))
        if t.op == "bin" and t.a[0] in ("Div", "Shr", "BitAnd"):
            self.ge(self.lin(t.a[1]), ({k: 1}, 0))
            if t.a[0] == "BitAnd":
                self.ge(self.lin(t.a[2]), ({k: 1}, 0))

    def ge(self, a, b):
        self.rows.append(sub(a, b))

    def length(self, x):
        if x.op == "str":
            return ({}, len(x.a[0].encode() if isinstance(x.a[0], str) else x.a[0]))
        if x.op == "list":
            r = ({}, 0)
            for k, y, g in x.a[0]:
                r = add(r, ({}, 1)) if k == "it" else add(r, ({self.atom(mk("len", mk("list", ((k, y, g),)))): 1}, 0))
            return r
        b = const_bytes(x)
        if b is not None:
            return ({}, len(b))
        if x.op == "call" and x.a[0].split("::")[-1] in ("sha256", "finalize", "digest", "root_hash", "hash_value"):
            return ({}, 32)
        if x.op == "repeat" and str(x.a[1]).isdigit():
            return ({}, int(x.a[1]))
        if x.op == "call" and x.a[0] == "slice" and len(x.a[1]) == 2:
            m = bounds(x.a[1][1])
            if m:
                lo, hi, inc = m
                h = self.lin(hi) if hi is not None else self.length(x.a[1][0])
                h = add(h, ({}, 1)) if inc else h
                return sub(h, self.lin(lo)) if lo is not None else h
        if x.op == "mut" and x.a[0].split("::")[-1] in ("read", "read_exact", "copy_from_slice", "clone_from_slice", "fill", "reverse", "sort"):
            return self.length(x.a[2][x.a[1]])      # written through a slice, it keeps its length
        if x.op == "mut" and x.a[0].split("::")[-1] in ("pop", "remove", "swap_remove", "pop_front", "pop_back", "push") and x.a[1] == 0:
            k = self.atom(mk("len", x))
            if ("mut", k) not in self.seen:
                self.seen.add(("mut", k))
                n = self.length(x.a[2][0])
                if x.a[0].endswith("push"):
                    self.same(({k: 1}, 0), add(n, ({}, 1)))
                else:
                    self.ge(n, ({k: 1}, 0))
                    self.ge(add(({k: 1}, 0), ({}, 1)), n)
            return ({k: 1}, 0)
        if x.op == "call" and x.a[0] == "tail" and len(x.a[1]) == 2:
            k = self.atom(mk("len", x))
            if ("mut", k) not in self.seen:
                self.seen.add(("mut", k))
                n = self.length(x.a[1][0])
                self.ge(n, ({k: 1}, 0))
                self.ge(add(({k: 1}, 0), self.lin(x.a[1][1])), n)
            return ({k: 1}, 0)
        if x.op == "call" and x.a[0] in ("sorted", "reversed", "lower", "to_vec", "patch"):
            return self.length(x.a[1][0])
        if x.op == "call" and x.a[0] in ARRAYS:
            return ({}, ARRAYS[x.a[0]])
        return ({self.atom(mk("len", x)): 1}, 0)

    def lin(self, t):
        if t.op == "int":
            return ({}, int(t.a[0]))
        if t.op == "len" or t.op == "call" and t.a[0] == "len":
            x = t.a[0] if t.op == "len" else t.a[1][0]
            if x.op == "list" and all(k == "it" for k, _, _ in x.a[0]) or x.op in ("str", "call"):
                if not (x.op == "call" and mk("len", x) is t):
                    return self.length(x)
                r = self.length(x)
                return r
            return self.length(x)
        if t.op == "bin" and t.a[0] == "Add":
            return add(self.lin(t.a[1]), self.lin(t.a[2]))
        if t.op == "bin" and t.a[0] == "Sub":
            return sub(self.lin(t.a[1]), self.lin(t.a[2]))
        if t.op == "bin" and t.a[0] == "Mul":
            a, b = self.lin(t.a[1]), self.lin(t.a[2])
            if not a[0]:
                return scale(b, a[1])
            if not b[0]:
                return scale(a, b[1])
        if t.op == "call" and t.a[0].split("::")[-1] == "saturating_sub":
            a, b = (self.lin(x) for x in t.a[1])
            k = self.atom(t)
            if ("sat", k) not in self.seen:
                self.seen.add(("sat", k))
                self.ge(({k: 1}, 0), sub(a, b))
                self.ge(a, ({k: 1}, 0))
            return ({k: 1}, 0)
        if t.op == "call" and t.a[0].split("::")[-1] in ("min", "max") and len(t.a[1]) == 2:
            k = self.atom(t)
            if ("mm", k) not in self.seen:
                self.seen.add(("mm", k))
                for x in t.a[1]:
                    p, q = ({k: 1}, 0), self.lin(x)
                    self.ge(q, p) if t.a[0].endswith("min") else self.ge(p, q)
            return ({k: 1}, 0)
        return ({self.atom(t): 1}, 0)

    def fact(self, c, v):
        if c.op == "lt":
            a, b = self.lin(c.a[0]), self.lin(c.a[1])
            if v:
                self.ge(b, add(a, ({}, 1)))
            else:
                self.ge(a, b)
        elif c.op == "eq":
            a, b = c.a
            for x, y in ((a, b), (b, a)):
                e = const_bytes(x)
                if e is not None or x.op == "str":
                    n = self.length(x)
                    if v:
                        self.same(self.length(y), n)
                    elif n == ({}, 0):
                        self.ge(self.length(y), ({}, 1))
                    return
            if number(a) or number(b):
                x, y = self.lin(a), self.lin(b)
                if v:
                    self.same(x, y)
                else:
                    self.nz.append(sub(x, y))
        elif c.op == "un" and c.a[0] == "Not":
            self.fact(c.a[1], not v)
        elif c.op == "call" and c.a[0].split("::")[-1] in ("starts_with", "ends_with") and len(c.a[1]) == 2:
            if v:
                self.ge(self.length(c.a[1][0]), self.length(c.a[1][1]))
            else:   # everything starts with what is empty
                self.ge(self.length(c.a[1][1]), ({}, 1))
        elif c.op == "call" and c.a[0].split("::")[-1] == "is_empty" and len(c.a[1]) == 1:
            n = self.length(c.a[1][0])
            self.same(n, ({}, 0)) if v else self.ge(n, ({}, 1))
        elif c.op == "is" and v and c.a[1] == "Some":
            x = c.a[0]
            if x.op == "next":
                self.ge(self.length(x.a[0]), ({}, 1))
            elif x.op == "call" and x.a[0].split("::")[-1] in ("first", "last", "pop", "split_first", "split_last", "chars_next") and x.a[1]:
                self.ge(self.length(x.a[1][0]), ({}, 1))
            elif x.op == "call" and x.a[0].split("::")[-1] == "get" and len(x.a[1]) == 2:
                self.ge(self.length(x.a[1][0]), add(self.lin(x.a[1][1]), ({}, 1)))
            elif x.op == "call" and x.a[0].split("::")[-1] in ("strip_prefix", "strip_suffix") and len(x.a[1]) == 2:
                self.ge(self.length(x.a[1][0]), self.length(x.a[1][1]))
            elif x.op == "call" and x.a[0].split("::")[-1] == "checked_sub" and len(x.a[1]) == 2:
                self.ge(self.lin(x.a[1][0]), self.lin(x.a[1][1]))
        elif c.op == "ovf":
            if not v and c.a[0] == "Sub":
                self.ge(self.lin(c.a[1]), self.lin(c.a[2]))

    def impossible(self):
        return infeasible(self.rows)

    def proves_lt(self, i, n):
        return self.proves(self.lin(n), add(self.lin(i), ({}, 1)))

    def same(self, a, b):
        self.ge(a, b)
        self.ge(b, a)

    def proves(self, a, b):
        """a >= b from the facts."""
        goal = sub(b, add(a, ({}, 1)))   # the opposite: b >= a + 1
        rows = self.rows + [goal]
        for _ in range(3):
            if infeasible(rows):
                return True
            more = False
            for z in self.nz:
                # x differs from y: where one side is excluded the other holds
                if infeasible(rows + [add(z, ({}, -1))]):
                    rows.append(add(scale(z, -1), ({}, -1)))
                    more = True
                elif infeasible(rows + [add(scale(z, -1), ({}, -1))]):
                    rows.append(add(z, ({}, -1)))
                    more = True
            if not more:
                return False
        return infeasible(rows)


def number(t):
    return t.op in ("int", "len") or t.op == "bin" or t.op == "call" and t.a[0] == "len"


def add(a, b):
    r = dict(a[0])
    for k, v in b[0].items():
        r[k] = r.get(k, 0) + v
        if not r[k]:
            del r[k]
    return (r, a[1] + b[1])


def scale(a, n):
    return ({k: v * n for k, v in a[0].items()} if n else {}, a[1] * n)


def sub(a, b):
    return add(a, scale(b, -1))


def infeasible(rows, most=4000):
    """Fourier-Motzkin elimination."""
    rows = list({(tuple(sorted(r.items())), c) for r, c in rows})
    while True:
        if any(not r and c < 0 for r, c in rows):
            return True
        rows = [x for x in rows if x[0]]
        if not rows:
            return False
        n = {}
        for r, _ in rows:
            for k, v in r:
                p = n.setdefault(k, [0, 0])
                p[v < 0] += 1
        k = min(n, key=lambda k: n[k][0] * n[k][1])
        pos, neg, rest = [], [], []
        for r, c in rows:
            d = dict(r)
            (rest if k not in d else pos if d[k] > 0 else neg).append((d, c))
        out = {(tuple(sorted(r.items())), c) for r, c in rest}
        for p, pc in pos:
            for q, qc in neg:
                x = add(scale((p, pc), -q[k]), scale((q, qc), p[k]))
                out.add((tuple(sorted(x[0].items())), x[1]))
        if len(out) > most:
            return False
        rows = list(out)


def bounds(t):
    """(start, end, end included) of a range value."""
    if t.op != "adt":
        return None
    d = dict(zip(t.a[2], t.a[3]))
    nm = t.a[0].split("::")[-1]
    if nm == "RangeFull":
        return (None, None, False)
    if not nm.startswith("Range"):
        return None
    return (d.get("start"), d.get("end"), "Inclusive" in nm)


def range_of(q):
    return bounds(q) if q.op == "adt" else None


# ---------------------------------------------------------------- sites
def site_of(e):
    return (e.chain[-1] if e.chain else "", e.span or "", e.name)


def text(ty):
    return re.search(r"^(&('\w+ )?(mut )?)*(str|std::string::String|alloc::string::String|String|std::borrow::Cow<'?\w*,? ?str>)$", ty.strip()) is not None


def boundary_of(s, t, facts):
    """Whether an offset into a string lies between two characters, as far as the source shows: its ends, where a pattern was
    found, the length of a prefix it has."""
    if t is None or t.op == "int" and t.a[0] == "0":
        return True
    if t.op == "len":
        x = t.a[0]
        return x is s or (mk("call", "", ()) is None) or any(
            v and c.op == "call" and c.a[0].split("::")[-1] == "starts_with" and c.a[1][0] is s and c.a[1][1] is x for c, v in facts)
    if t.op == "fld" and t.a[0].op == "call" and t.a[0].a[0].split("::")[-1] in ("find", "rfind") and t.a[0].a[1][0] is s:
        return True
    if t.op == "int":
        for c, v in facts:
            if v and c.op == "call" and c.a[0].split("::")[-1] == "starts_with" and c.a[1][0] is s and c.a[1][1].op == "str":
                p = c.a[1][1].a[0]
                p = p if isinstance(p, str) else p.decode()
                if int(t.a[0]) <= len(p.encode()) and p.isascii() or int(t.a[0]) == len(p.encode()):
                    return True
        return False
    if t.op == "bin" and t.a[0] == "Add":
        # one past where an ASCII character was found
        for x, n in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if n.op == "int" and x.op == "fld" and boundary_of(s, x, facts):
                pat = x.a[0].a[1][1] if len(x.a[0].a[1]) > 1 else None
                if pat is not None and (pat.op == "char" and int(pat.a[0]) < 128 and n.a[0] == "1" or pat.op == "str" and len(
                        pat.a[0].encode()) == int(n.a[0])):
                    return True
            if n.op == "len" and x.op == "fld" and boundary_of(s, x, facts) and len(x.a[0].a[1]) > 1 and x.a[0].a[1][1] is n.a[0]:
                return True
    if t.op == "bin" and t.a[0] == "Sub" and t.a[1].op == "len" and t.a[1].a[0] is s:
        for c, v in facts:
            if v and c.op == "call" and c.a[0].split("::")[-1] == "ends_with" and c.a[1][0] is s:
                x = c.a[1][1]
                if t.a[2].op == "len" and t.a[2].a[0] is x:
                    return True
                if x.op == "str" and t.a[2].op == "int" and int(t.a[2].a[0]) == len(x.a[0].encode() if isinstance(x.a[0], str) else x.a[0]):
                    return True
                if x.op == "char" and t.a[2].op == "int" and t.a[2].a[0] == "1" and int(x.a[0]) < 128:
                    return True
    return False


def spare(facts, d):
    """The facts of one case of the state an event happens in."""
    return d


SMALL = 1 << 32


def bounded(t):
    """Whether a number to allocate is given by sizes of what is there already, and not by a number somebody sent."""
    if t.op == "int":
        return int(t.a[0]) < SMALL
    if t.op == "len":
        return True
    if t.op == "bin":
        return t.a[0] in ("Add", "Sub", "Mul", "Div", "Shr", "BitAnd", "Rem") and (
            all(bounded(x) for x in t.a[1:]) if t.a[0] in ("Add", "Mul") else bounded(t.a[1]) or t.a[0] == "BitAnd" and bounded(t.a[2]))
    if t.op == "call":
        nm = t.a[0].split("::")[-1]
        if nm in ("len", "count", "size_hint", "capacity"):
            return True
        if nm == "min":
            return any(bounded(x) for x in t.a[1])
        if nm in ("max", "saturating_sub", "saturating_add", "div_ceil"):
            return all(bounded(x) for x in t.a[1][: 1 if nm == "saturating_sub" else None])
    if t.op == "phi":
        return all(bounded(x) for _, x in t.a[0])
    return False


INFALLIBLE = re.compile(r"(^|::)(unsigned|signed)$")


def cannot_fail(t):
    """Results that are never errors: writing numbers to a vector."""
    if t.op == "call":
        nm = t.a[0]
        if t.a[0].split("::")[-1] in ("self_describe", "serialize", "into_inner"):
            return any(x.op == "call" and x.a[0].endswith("Serializer::new") and x.a[1] and x.a[1][0] is EMPTY for x in subs(t))
        return nm.split("::")[0] in ("leb128",) and bool(INFALLIBLE.search(nm)) or nm in ("std::io::Write::write_all", "std::io::Write::write")
    return False


def why_not(e):
    """Empty when the construct cannot panic in any case of its state; what was missing otherwise."""
    for d in dnf(e.facts):
        w = one(e, d)
        if w and e.kind not in ("unwrap", "panic"):
            w = next((x for x in (one(moved(e, a), f) and next((y for y in (one(moved(e, a), settled(k)) for k in dnf(f)) if y), "")
                      for a, f in split(e.args, d)) if x), "")
        if w:
            return w + "; known here: " + ", ".join(sorted(fact_strs(d)))[:600]
    return ""


def moved(e, args):
    return Event(e.path, e.name, args, e.facts, e.span, e.ret, e.chain, e.kind, e.raw, e.frame)


def natural(t):
    """Numbers read from unsigned bytes, lengths, and conversions of them that succeeded."""
    if t.op == "int":
        return int(t.a[0]) >= 0
    if t.op == "len":
        return True
    if t.op == "call":
        return t.a[0] in ("be", "le", "len") or t.a[0].split("::")[-1] in ("from", "try_from", "try_into", "into") and all(map(natural, t.a[1]))
    if t.op == "fld" and t.a[1] in ("Ok", "Some"):
        return natural(t.a[0])
    if t.op == "bin" and t.a[0] in ("BitAnd", "Shr", "Rem", "Div", "Add", "Mul"):
        return all(map(natural, t.a[1:]))
    if t.op == "phi":
        return all(natural(x) for _, x in t.a[0])
    return False


def vals(t, d):
    """Cases of a value under the facts."""
    for g, x in alts(t):
        if consistent(d, g) and not (t.op == "phi" and Lin(d | g).impossible()):
            yield d | g, x


def joined_in(t):
    return next((x for x in subs(t) if x.op == "phi"), None)


def swapped(t, p, x):
    return rewrite(t, lambda y: x if y is p else y)


def split(args, d, most=400):
    """Cases of the values joined anywhere in the arguments, told apart in the facts too."""
    todo, n = [(tuple(args), d)], 0
    while todo:
        a, f = todo.pop()
        p = next((q for q in map(joined_in, a) if q is not None), None)
        n += 1
        if p is None or n > most:
            yield a, f
            continue
        for g, x in p.a[0]:
            if not consistent(f, g):
                continue
            h = frozenset((swapped(c, p, x), v) for c, v in f) | g
            if not any(c.op == "bool" and c.a[0] != v for c, v in h):
                todo.append((tuple(swapped(y, p, x) for y in a), h))


def settled(d):
    """The facts, and what they say when joined values are those of the case they describe."""
    h = d | {(specialize(c, d), v) for c, v in d if c.op != "or"}
    return frozenset((c, v) for c, v in h if c.op != "bool")


def signed_type(e):
    """Whether a subtraction is one of signed numbers: the constant it starts from is negative."""
    return e.args[0].op == "int" and int(e.args[0].a[0]) < 0


def one(e, d):
    if e.kind == "panic":
        return "reached: " + " ".join(show(a) for a in e.args)[:200]
    if e.kind == "unwrap":
        v = e.args[0]
        for g, x in vals(v, d):
            if x.op == "adt":
                if x.a[1] in ("None", "Err"):
                    return f"unwrapped while {show(x)[:200]}"
            elif not cannot_fail(x) and not any((mk("is", x, n), True) in g for n in ("Some", "Ok")):
                return f"nothing shows that {show(x)[:300]} is there"
        return ""
    if e.kind == "assert" and not e.path.startswith("assert::overflow"):
        if e.name == "bounds":
            n, i = e.args
            return "" if Lin(d).proves_lt(i, n) else f"index {show(i)[:200]} of {show(n)[:200]}"
        c, want = e.ret, e.raw
        if c.op == "bool":
            return "" if c.a[0] == want else f"{e.name}"
        if (c, want) in d:
            return ""
        return f"{e.name} {show(c)[:200]}"
    if e.kind == "assert":
        x, y = e.args[0], e.args[1] if len(e.args) > 1 else None
        if e.name == "overflow:Sub":
            for g, u in vals(x, d):
                for g2, v in vals(y, g):
                    if (mk("lt", u, v), False) in g2 or u.op == "int" and int(u.a[0]) in (-1, 0) and signed_type(e) and natural(v):
                        continue
                    l = Lin(g2)
                    if not l.proves(l.lin(u), l.lin(v)):
                        return f"{show(u)[:200]} - {show(v)[:200]}"
            return ""
        if e.name in ("overflow:Add", "overflow:Mul"):
            return "" if bounded(x) and bounded(y) or counter(x, y) else f"{e.name} of {show(x)[:200]} and {show(y)[:200]}"
        if e.name in ("overflow:Shr", "overflow:Shl") and y is not None and y.op == "int" and 0 <= int(y.a[0]) < 8:
            return ""       # no integer has fewer bits
        return "" if bounded(x) and y is not None and y.op == "int" else f"{e.name} of {', '.join(show(a)[:200] for a in e.args)}"
    k = hazard(e.path[len("hazard::"):])
    ty = e.ret
    if k == "index":
        for g, v in vals(e.args[0], d):
            for g2, i in vals(e.args[1], g):
                w = indexed(v, i, ty, g2)
                if w:
                    return w
        return ""
    if k == "split_at":
        for g, v in vals(e.args[0], d):
            for g2, i in vals(e.args[1], g):
                w = within(v, i, g2) or (text(ty[0]) and not boundary_of(v, i, g2) and f"{show(i)[:200]} may lie inside a character of {show(v)[:200]}")
                if w:
                    return w
        return ""
    if k == "at":
        for g, v in vals(e.args[0], d):
            for g2, i in vals(e.args[1], g):
                b = bounds(i)
                if b:
                    w = indexed(v, i, ty, g2)
                elif e.name in ("insert", "split_off", "insert_str", "rotate_left", "rotate_right"):
                    w = within(v, i, g2)
                else:
                    w = "" if "VecDeque" in e.path else below(v, i, g2)
                if not b and e.name == "swap":
                    w = w or below(v, e.args[2], g2)
                if not w and "String" in e.path and not boundary_of(v, i, g2) and not b:
                    w = f"{show(i)[:200]} may lie inside a character of {show(v)[:200]}"
                if w:
                    return w
        return ""
    if k == "same_len":
        for g, x in vals(e.args[0], d):
            for g2, y in vals(e.args[1], g):
                l = Lin(g2)
                a, b = sized(l, x, ty[0]), sized(l, y, ty[1])
                if not (l.proves(a, b) and l.proves(b, a)):
                    return f"copies {show(y)[:200]} over {show(x)[:200]}, whose length may be another"
        return ""
    if k == "positive" or k == "div":
        for g, n in vals(e.args[1], d):
            l = Lin(g)
            if not l.proves(l.lin(n), ({}, 1)):
                return f"{e.name} of {show(n)[:200]}, which may be 0"
        return ""
    if k == "sub":
        if not re.search(r"^&?(u|i)(8|16|32|64|128|size)$", ty[0]):
            return "" if not re.search(r"Duration|Instant|SystemTime", ty[0]) else f"subtraction of {ty[0]}"
        for g, u in vals(e.args[0], d):
            for g2, v in vals(e.args[1], g):
                l = Lin(g2)
                if not l.proves(l.lin(u), l.lin(v)):
                    return f"{show(u)[:200]} - {show(v)[:200]}"
        return ""
    if k == "alloc":
        n = e.args[-1] if e.name not in ("resize",) else e.args[1]
        for g, x in vals(n, d):
            if not bounded(x) and not limited(x, g):
                return f"{e.name} of {show(x)[:200]}: a number that nothing bounds"
        return ""
    if k == "borrow":
        return ""
    if k == "principal":
        for g, x in vals(e.args[0], d):
            l = Lin(g)
            if not l.proves(({}, 29), l.length(x)):
                return f"nothing shows that {show(x)[:200]} is at most 29 bytes long, as a principal is"
        return ""
    if k == "points":
        # the signature library takes compressed points only, and panics on anything else
        for x, n in ((e.args[0], 48), (e.args[2], 96)):
            l = Lin(d)
            if not (l.proves(l.length(x), ({}, n)) and l.proves(({}, n), l.length(x))):
                return f"nothing shows that {show(x)[:200]} is {n} bytes long"
            m = mk("bin", "BitAnd", *sorted((mk("at", x, mk("int", "0")), mk("int", "128")), key=show))
            top = show(mk("at", x, mk("int", "0")))

            def high(y):
                """Zero exactly when the bit that says so is."""
                return y.op == "bin" and (y.a[0] == "BitAnd" and {show(z) for z in y.a[1:]} == {show(z) for z in m.a[1:]} or
                                          y.a[0] == "Shr" and [show(z) for z in y.a[1:]] == [top, "7"])

            def says(c, v):
                if c.op not in ("eq", "lt") or len(c.a) != 2:
                    return False
                a, b = map(show, c.a)
                if c.op == "eq":
                    return any(high(y) and (z == "0" and not v or v and z == ("128" if y.a[0] == "BitAnd" else "1")) for y, z in ((c.a[0], b), (c.a[1], a)))
                return v and (a == "0" and high(c.a[1]) or a == "127" and b == top) or not v and (a == top and b == "128")
            if not any(says(c, v) for c, v in d):
                return f"nothing shows that {show(x)[:200]} is a compressed point"
        return ""
    return f"{e.path[8:]}({', '.join(show(a)[:100] for a in e.args)}) panics on some arguments"


def limited(x, d):
    for c, v in d:
        if c.op == "lt" and (v and c.a[0] is x and bounded(c.a[1]) or not v and c.a[1] is x and bounded(c.a[0])):
            return True
        if c.op == "eq" and v and x in c.a and any(bounded(y) for y in c.a if y is not x):
            return True
    return False


def counter(x, y):
    """A count going up by a constant or by a length: memory bounds it."""
    return any(n.op == "int" and int(n.a[0]) < 1 << 16 or bounded(n) for n in (x, y))


ARRAYS = {}     # the functions that return an array, and its length


def arrays(c):
    for f in c.prog.fns.values():
        m = re.fullmatch(r"\[[^;\[\]]+; (\d+)\]", str(f["locals"][0][0])) if f.get("locals") else None
        if m:
            ARRAYS[f["path"]] = int(m.group(1))


def sized(l, x, ty):
    m = re.search(r"\[[^;\]]+; (\d+)\]", ty)
    return ({}, int(m.group(1))) if m else l.length(x)


def within(v, i, d):
    l = Lin(d)
    return "" if l.proves(l.length(v), l.lin(i)) else f"nothing shows that {show(i)[:200]} is at most the length of {show(v)[:300]}"


def below(v, i, d):
    l = Lin(d)
    return "" if l.proves(l.length(v), add(l.lin(i), ({}, 1))) else f"nothing shows that {show(i)[:200]} is less than the length of {show(v)[:300]}"


def indexed(v, i, ty, d):
    if "RangeFull" in (ty[1] if len(ty) > 1 else ""):
        return ""
    if re.search(r"HashMap|BTreeMap", ty[0]):
        ok = any(v2 and c.op == "call" and c.a[0].split("::")[-1] in ("contains_key", "contains") and c.a[1][0] is v for c, v2 in d)
        return "" if ok else f"nothing shows that {show(v)[:200]} has the key {show(i)[:200]}"
    b = bounds(i)
    if b is None:
        m = re.search(r"^&?(?:mut )?\[[^;\]]+; (\d+)\]", ty[0])
        if m:
            l = Lin(d)
            return "" if l.proves(({}, int(m.group(1))), add(l.lin(i), ({}, 1))) else f"index {show(i)[:200]} of an array of {m.group(1)}"
        return below(v, i, d)
    lo, hi, inc = b
    l = Lin(d)
    n = sized(l, v, ty[0])
    l.same(n, l.length(v))
    h = n if hi is None else add(l.lin(hi), ({}, 1 if inc else 0))
    if hi is not None and not l.proves(n, h):
        return f"nothing shows that {show(hi)[:200]} is at most the length of {show(v)[:300]}"
    if lo is not None and not l.proves(h, l.lin(lo)):
        return f"nothing shows that {show(lo)[:200]} is at most " + (show(hi)[:200] if hi is not None else f"the length of {show(v)[:300]}")
    if text(ty[0]):
        for x in (lo, hi):
            if not boundary_of(v, x, d):
                return f"{show(x)[:200]} may lie inside a character of {show(v)[:200]}"
    return ""


def own_sites(f):
    """Whether the code of a function itself has anything that could panic."""
    for b in f["blocks"]:
        t = b.get("t")
        if t and t[0] == "assert" and t[3] != "other":
            return True
    for k, _ in callees(f):
        p = strip_generics(k["path"])
        if hazard(p) or p in PANICS or re.search(r"(Option|Result)::(unwrap|expect|unwrap_err|expect_err)$", p):
            return True
    return False


def roots_of(prog, entries, stop=lambda f: False):
    """Functions analysed on any arguments: the entry points and every function of the public interface they reach."""
    R = reach(prog, entries, stop)
    return R, [f for f in R if f.get("reachable") or f in entries]


def no_panic(c, entries, judged, stop=lambda f: False):
    """Runs every root on arbitrary arguments; what is neither reachable from outside nor called in its caller's context is
    run on its own. `judged`: whose constructs are judged here; `stop`: code that is not entered."""
    R, roots = roots_of(c.prog, entries, stop)
    ids = {f["id"] for f in roots}
    names = {f["path"]: f for f in c.prog.fns.values()}
    seen, bad, done = {}, {}, set()

    def run(f):
        TM.LV.clear()
        r = c.run(f, lambda g: g["id"] in ids and g is not f or stop(g), hazards=lambda p: hazard(p) is not None)
        done.update(r.engine.analysed)
        return [e for e in r.events if e.kind in ("assert", "hazard", "unwrap", "panic") and judged(names.get(e.chain[-1], f))]
    alone = {}

    def safe_alone(e):
        """Whether the construct is safe whatever the arguments of a function it is reached through."""
        for k in range(len(e.chain) - 1, 0, -1):
            f = names.get(e.chain[k])
            if f is None or f["kind"] == "Closure":
                continue
            if f["id"] not in alone:
                alone[f["id"]] = [(site_of(x), x.chain, why_not(x)) for x in run(f)]
            here = [w for s, ch, w in alone[f["id"]] if s == site_of(e) and ch == e.chain[k:]]
            if here and not any(here):
                return True
        return False

    def go(f):
        for e in run(f):
            s = site_of(e)
            seen.setdefault(s, e)
            w = why_not(e)
            if w and s not in bad and not safe_alone(e):
                bad[s] = (f, e, w)
    for f in roots:
        go(f)
    for f in R:
        if f["id"] not in done and judged(f) and own_sites(f):
            go(f)
    for s, e in sorted(seen.items()):
        f, _, w = bad.get(s, (None, None, ""))
        c.ob("no-panic", f"{s[2]} in {s[0]}", not w, s[1] or s[0], w and f"reached from {f['path']}: {w}")
    return R, seen


RV, CV, CBOR, RIH = "ic_response_verification", "ic_certificate_verification", "ic_cbor", "ic_representation_independent_hash"
HC, IC, AC = "ic_http_certification", "ic_certification", "ic_asset_certification"
TREES = re.compile(r"::(rb_tree|nested_rb_tree)::")


def c14(c):
    c.rule("no-panic", "no index, slice, cut inside a character, unwrap, subtraction below zero, division by zero, allocation of a "
                       "size somebody sends, point that the signature library does not take, or explicit panic in the code an "
                       "input reaches can happen: on every path to it the conditions passed exclude that")
    entries = [f for f in c.prog.fns.values() if f.get("reachable") and f["kind"] != "Closure" and not f.get("derived") and (
        f["crate"] in (RV, CV, CBOR, RIH) or f["crate"] == IC and not TREES.search(f["path"])
        or f["crate"] == HC and re.search(r"::(hash|http|wildcard_paths)::", f["path"]))]
    for n, m in ((RV, "verify_request_response_pair"), (CBOR, "from_cbor"), (HC, "request_hash"), (HC, "response_hash"),
                 (RIH, "representation_independent_hash"), (IC, "lookup_path"), (CV, "verify")):
        if not any(f["crate"] == n and f["name"] == m for f in entries):
            raise Anchor(f"public function {n}::{m} is not in the code")
    serve = c.fn(AC, "serve_asset")
    crates = (RV, CV, CBOR, RIH, IC, HC, AC)

    def building(f):
        """Code that builds trees from what a canister certifies, not from what is sent to it."""
        return bool(TREES.search(f["path"]))
    arrays(c)
    R, seen = no_panic(c, entries + [serve], lambda f: f["crate"] in crates and not building(f), building)
    c.count("no-panic", "constructs that could panic", len(seen), 12)
    c.count("no-panic", "functions an input reaches", len(R), 120)


RULES = {"C14": c14}
