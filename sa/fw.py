"""Frame of the checks: anchors, obligations, reports, evidence, known findings."""

import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "sa"))
import extract  # noqa: E402
from engine import Engine, Oracle, Program  # noqa: E402
from terms import *  # noqa: E402,F403
import terms as TM  # noqa: E402

EVIDENCE = os.environ.get("SA_EVIDENCE", f"{HERE}/evidence")
KNOWN = f"{HERE}/known_findings.jsonl"


class Anchor(Exception):
    """Something the rule is about is not in the code any more."""


_progs = {}


def program(tag=""):
    if tag not in _progs:
        d, key = extract.extract()
        _progs[tag] = Program(d, tag)
        _progs[tag].key = key
    return _progs[tag]


class Check:
    def __init__(self, pid, tier="quick"):
        self.pid, self.tier = pid, tier
        self.obligations = []
        self.violations = []
        self.functions = set()
        self.calls = 0
        self.exits = 0
        self.notes = set()
        self.rules = {}
        self.tag = ""

    # ---- anchors
    @property
    def prog(self):
        return program(self.tag)

    def fns(self, crate, name, self_ty=None, trait=None, pred=None):
        return self.prog.find(crate=crate, name=name, self_ty=self_ty, trait=trait, pred=pred)

    def fn(self, crate, name, self_ty=None, trait=None, pred=None):
        r = self.fns(crate, name, self_ty, trait, pred)
        if len(r) != 1:
            # several monomorphic impls of one generic name: the caller must say which
            raise Anchor(f"function {crate}::{(self_ty or '')}::{name} {trait or ''}: expected one, found {len(r)}")
        return r[0]

    def bset(self, *specs):
        """Boundary predicate from 'crate:name' or 'crate:Self:name' specifications; each must exist."""
        ids = set()
        for s in specs:
            p = s.split(":")
            crate, name = p[0], p[-1]
            st = p[1] if len(p) == 3 else None
            fs = self.fns(crate, name, st)
            if not fs:
                raise Anchor(f"function {s} is not in the code")
            ids |= {f["id"] for f in fs}
        return lambda f: f["id"] in ids

    def run(self, fn, boundary=None, names=None, args=None, **kw):
        e = Engine(self.prog, boundary=boundary, **kw)
        if args is None:
            args = []
            for i in range(1, fn["args"] + 1):
                nm = names[i - 1] if names and i - 1 < len(names) else fn["locals"][i][1] or f"arg{i}"
                args.append(mk("param", "", nm, i))
        r = e.run(fn, args)
        self.functions |= e.analysed
        self.calls += e.calls_seen
        self.notes |= e.notes
        self.exits += len(alts(r.ret))
        r.fn = fn
        r.engine = e
        return r

    def paths(self, fn, splits, boundary=None, names=None, most=6000):
        """The results of fn, path by path: none of the functions that are split is joined."""
        o, out = Oracle(splits), []
        while True:
            e = Engine(self.prog, boundary=boundary)
            e.oracle = o
            args = [mk("param", "", names[i - 1] if names else fn["locals"][i][1] or f"arg{i}", i) for i in range(1, fn["args"] + 1)]
            TM.LV.clear()
            r = e.run(fn, args)
            r.lv = dict(TM.LV)
            self.functions |= e.analysed
            self.calls = max(self.calls, e.calls_seen)
            self.notes |= e.notes
            if r.ret.op != "phi" or r.ret.a[0]:
                r.fn, r.engine = fn, e
                self.exits += 1
                out.append(r)
            if not o.more():
                return out
            if len(out) > most:
                raise Anchor(f"{fn['path']}: more than {most} paths")

    # ---- obligations
    def rule(self, name, text):
        self.rules[name] = text

    def where(self, fn):
        return f"{fn.get('span', '?')} {fn['path']}"

    def ob(self, rule, instance, good, where, detail=""):
        """One obligation: `instance` must satisfy `rule`."""
        if isinstance(where, dict):
            where = self.where(where)
        self.obligations.append((rule, instance, bool(good), where))
        if not good:
            self.violations.append({"key": f"{rule}: {instance}", "rule": rule, "where": where, "instance": instance,
                                    "detail": detail})
        return bool(good)

    def count(self, rule, what, n, floor, where=""):
        self.ob(rule, f"at least {floor} {what}", n >= floor, where, f"found {n}; fewer than confirmed by hand: the rule would pass vacuously")

    # ---- results
    def finish(self, t0, seed):
        known = load_known()
        mine = [k for k in known if k.get("property") == self.pid and k.get("status") == "known"]
        keys = {k["key"]: k for k in mine}
        seen, new = set(), []
        for v in self.violations:
            if v["key"] in keys:
                seen.add(v["key"])
            else:
                new.append(v)
        os.makedirs(EVIDENCE, exist_ok=True)
        report = f"{EVIDENCE}/{self.pid}.report.txt"
        with open(report, "w") as f:
            for v in self.violations:
                f.write(f"[{v['rule']}] {v['where']}\n  instance: {v['instance']}\n  {v['detail']}\n")
                if v["rule"] in self.rules:
                    f.write(f"  rule: {self.rules[v['rule']]}\n")
            if not self.violations:
                f.write("no violation\n")
        per = {}
        for r, i, g, w in self.obligations:
            p = per.setdefault(r, {"text": self.rules.get(r, ""), "instances": 0, "satisfied": 0, "examples": []})
            p["instances"] += 1
            p["satisfied"] += g
            if len(p["examples"]) < 4:
                p["examples"].append(f"{i} @ {w}"[:300])
        ev = {
            "property": self.pid, "tier": self.tier, "seed": seed, "level": "other",
            "coverage": {
                "explanation": "Static: interprocedural value-flow and must-fact dataflow over the MIR of /repo's current "
                               "sources (rebuilt this run). Each obligation is one rule applied to one construct; "
                               "functions_analysed counts the distinct functions whose bodies were walked from the "
                               "rule's entry points, call_sites the call sites visited in them, exits the return "
                               "alternatives examined.",
                "functions_analysed": len(self.functions), "call_sites": self.calls, "exits": self.exits,
                "obligations": len(self.obligations), "discharged": sum(1 for o in self.obligations if o[2]),
                "rules": per,
                "functions_in_program": len(self.prog.fns),
                "analysed": sorted({self.prog.fns[i]["npath"] for i in self.functions if i in self.prog.fns})[:80],
                "source_digest": self.prog.key,
                "notes": sorted(self.notes)[:10],
                "known_findings": sorted(seen),
            },
            "assumptions": ASSUMPTIONS,
            "wall_s": round(time.time() - t0, 2),
            "violations": len(new),
        }
        with open(f"{EVIDENCE}/{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted(seen):
            print(f"KNOWN-FINDING: property={self.pid} {keys[k].get('what', k)}")
        for v in new[:12]:
            print(f"  [{v['rule']}] {v['where']}: {v['instance']}\n      {v['detail'][:600]}")
        if new:
            print(f"VIOLATION property={self.pid} replay={report}")
            return 1
        print(f"OK property={self.pid} obligations={len(self.obligations)} functions={len(self.functions)} "
              f"call_sites={self.calls} wall={ev['wall_s']}s")
        return 0


ASSUMPTIONS = [
    "rustc's MIR for the build configuration analysed (all features; host target, for the JS bindings cfg(target_arch=wasm32)) is the program",
    "std, sha2, leb128, urlencoding and similar library calls behave as modelled in sa/models.py; every other library "
    "call is an opaque function of all its arguments",
    "the mirror of the workspace leaves out only tests, dev-dependencies and members that are not product libraries",
]


def load_known():
    try:
        with open(KNOWN) as f:
            return [json.loads(l) for l in f if l.strip()]
    except FileNotFoundError:
        return []


# ---------------------------------------------------------------- term queries
def s(t):
    return show(t)


def fact_strs(g):
    """Facts as text: 'c' or '!c'."""
    return {("" if v else "!") + show(c) for c, v in g}


def last(path):
    return path.split("::")[-1]


def calls_in(t, name):
    return [x for x in t_all(t) if x.op == "call" and last(x.a[0]) == name]


def has(t, sub):
    return sub in subs(t)


def fnname(t):
    return last(t.a[0]) if t.op == "call" else None


def field(t, name):
    """Named field of an aggregate."""
    if t.op == "adt":
        try:
            return t.a[3][t.a[2].index(name)]
        except ValueError:
            return None
    return mk("fld", t, None, name)


def strip(t):
    """Drops error conversions and integer width changes that keep the value."""
    while t.op == "call" and t.a[0] in ("From::from",):
        t = t.a[1][0]
    return t


def rewrite(t, f, memo=None):
    """Bottom-up rewriting of a term, guards included; f maps a rebuilt term to its replacement."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "lv":
        memo[t] = r = f(t)
        return r

    def w(a):
        if isinstance(a, T):
            return rewrite(a, f, memo)
        if isinstance(a, tuple):
            return tuple(w(x) for x in a)
        if isinstance(a, frozenset):
            return frozenset(w(x) for x in a)
        return a
    if t.op == "eq":
        r = mkeq(w(t.a[0]), w(t.a[1]))
    elif t.op == "phi":
        r = mkphi([(w(g), w(x)) for g, x in t.a[0]])
    else:
        r = mk(t.op, *[w(a) for a in t.a])
        if r.op == "cast" and r.a[-1].op == "int":
            n, bits = int(r.a[-1].a[0]), {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 32}.get(r.a[0])
            if bits and 0 <= n < 1 << bits:
                r = r.a[-1]
    memo[t] = r = f(r)
    return r


BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
        "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}


def wrap(n, ty):
    b = BITS.get(ty)
    if b is None:
        return None
    n &= (1 << b) - 1
    return n - (1 << b) if ty[0] == "i" and n >> (b - 1) else n


def num(t):
    if t.op == "int":
        return int(t.a[0])
    if t.op == "bool":
        return int(t.a[0])
    return None


def fold1(t):
    """One step of constant folding."""
    if t.op == "bin":
        a, b = num(t.a[1]), num(t.a[2])
        if a is not None and b is not None:
            op = t.a[0]
            r = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "BitAnd": lambda: a & b, "BitOr": lambda: a | b,
                 "BitXor": lambda: a ^ b, "Shl": lambda: a << b, "Shr": lambda: a >> b,
                 "Div": lambda: a // b if a >= 0 and b > 0 else None, "Rem": lambda: a % b if a >= 0 and b > 0 else None}.get(op, lambda: None)()
            if r is not None:
                return mk("int", str(r))
            if op in ("Lt", "Le", "Gt", "Ge"):
                return mk("bool", {"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op])
    elif t.op == "call" and len(t.a[1]) == 2 and last(t.a[0]) in ("min", "max", "saturating_sub", "saturating_add", "wrapping_add", "abs_diff"):
        a, b = num(t.a[1][0]), num(t.a[1][1])
        if a is not None and b is not None:
            r = {"min": min(a, b), "max": max(a, b), "saturating_sub": max(a - b, 0), "abs_diff": abs(a - b)}.get(last(t.a[0]), a + b)
            return mk("int", str(r))
    elif t.op in ("eq", "lt"):
        a, b = num(t.a[0]), num(t.a[1])
        if a is not None and b is not None:
            return mk("bool", a == b if t.op == "eq" else a < b)
    elif t.op == "cast":
        n = num(t.a[-1])
        if n is not None:
            w = wrap(n, t.a[0])
            if w is not None:
                return mk("int", str(w))
    return t


NEVER = mk("abbr", "never")


def evaluate(t, env, memo=None):
    """The term with the given subterms replaced by numbers and constants folded. Joins keep the alternatives whose
    guards are not refuted."""
    def f(x):
        if x in env:
            return mk("int", str(env[x]))
        if x.op == "phi":
            keep = [(g2, y) for g, y in x.a[0] for g2 in (live(g),) if g2 is not None]
            if len(keep) == 1:
                return keep[0][1]
            return mkphi(keep) if keep else NEVER
        return fold1(x)
    return rewrite(t, f, {} if memo is None else memo)


def live(g):
    """A guard without its settled conditions; None when it is refuted."""
    out = set()
    for c, v in g:
        if c.op == "bool":
            if bool(c.a[0]) != v:
                return None
        elif c.op == "or":
            ds = [live(d) for d in c.a[0]]
            if v:
                ds = [d for d in ds if d is not None]
                if not ds:
                    return None
                if frozenset() in ds:
                    continue
                out.add((mk("or", frozenset(ds), sum(TM.weight(x) for x in ds)), v)) if len(set(ds)) > 1 else out.update(ds[0])
            else:
                out.add((c, v))
        else:
            out.add((c, v))
    return frozenset(out)


def evaluate_facts(d, env, memo=None):
    """The facts under numbers for some subterms; None when they are refuted."""
    return live(frozenset((evaluate(c, env, memo), v) for c, v in d))


def plain(t):
    """A copy of a whole sequence is that sequence; printable byte constants are text."""
    if t.op == "list" and len(t.a[0]) == 1:
        k, x, g = t.a[0][0]
        if k == "rep" and not g and x.op == "elem":
            return x.a[0]
    if t.op == "bytes":
        b = bytes.fromhex(t.a[0])
        if b and all(32 <= c < 127 for c in b):
            return mk("str", b.decode())
    return t


def flat_lookup(x):
    """Looking a path up in a looked-up subtree is looking up the joined path."""
    if x.op == "call" and last(x.a[0]) in ("lookup_subtree", "lookup_path") and len(x.a[1]) == 2:
        t, p = x.a[1]
        if p.op == "list" and any(is_label(y) for _, y, _ in p.a[0]):
            p = mklist(tuple((k, y.a[3][0] if is_label(y) else y, g) for k, y, g in p.a[0]))
            x = mk("call", x.a[0], (t, p))
        if t.op == "fld" and t.a[1] == "Found" and t.a[0].op == "call" and last(t.a[0].a[0]) == "lookup_subtree":
            t0, p0 = t.a[0].a[1]
            return mk("call", x.a[0], (t0, joined(p0, p)))
    return x


def last_char(x):
    """Items that are there when a text's last character exists and is this one: when it ends with it."""
    if x.op != "list":
        return x
    items = []
    for kind, y, g in x.a[0]:
        for k, val in g:
            for n, e in (k.a, k.a[::-1]) if val and k.op == "eq" else ():
                if n.op in ("int", "char") and e.op == "at" and show(e.a[1]) == "-1":
                    here = {(k2, v2) for k2, v2 in g if not v2 and show(k2) == f"eq(0, len({show(e.a[0])}))"}
                    if here:
                        g = g - here - {(k, val)} | {(mk("call", "std::str::<impl str>::ends_with", (e.a[0], n)), True)}
        items.append((kind, y, g))
    return mklist(tuple(items))


def is_label(y):
    """A label made by name around its bytes, as conversions into one are."""
    return y.op == "adt" and last(y.a[0]) == "Label" and len(y.a[3]) == 1


def joined(a, b):
    def items(s):
        return s.a[0] if s.op == "list" else (rep(mk("elem", s, "all")),)
    return mklist(items(a) + items(b))


def specialize(t, d):
    """The value under facts d: alternatives that contradict them are dropped."""
    def f(x):
        if x.op == "phi":
            keep = [(g, y) for g, y in x.a[0] if any(consistent(d, k) for k in dnf(g))]
            if len(keep) == 1 or 0 < len(keep) < len(x.a[0]):
                return keep[0][1] if len(keep) == 1 else mkphi(keep)
        return x
    return rewrite(t, f, {})


def counted(d):
    """What is known of some earlier element when a loop's counter, from 0, is known under d not to be 0: the facts behind
    every change of it."""
    out = []
    walks = {c.a[0].a[0] for c, v in d if c.op == "is" and c.a[0].op == "next" and not v}
    for c, v in d:
        xs = [x for x in c.a if isinstance(x, TM.T)] if c.op in ("eq", "lt") else []
        lv = [x for x in xs if x.op == "lv"]
        n = [int(x.a[0]) for x in xs if x.op == "int"]
        if len(lv) != 1 or len(n) != 1 or lv[0] not in TM.LV:
            continue
        lv, n = lv[0], n[0]
        if not (c.op == "eq" and (v and n > 0 or not v and n == 0) or c.op == "lt" and (c.a[0] is lv and not v and n > 0 or c.a[1] is lv and v)):
            continue
        ways, start = [], []
        for x in TM.LV[lv]:
            for g, y in alts(x):
                if y.op == "int":
                    start.append(y.a[0])
                elif y is not lv:
                    ways.append(g)
        if start != ["0"] or not ways:
            continue
        fs = set.intersection(*[set(w) for w in ways])
        if len(walks) == 1:
            fs |= {(x.a[0], val) for x, val in d if x.op == "all" and x.a[0].op != "or"}
        out.append(frozenset(fs))
    return out


def by_kind(r, at, variant=None):
    """by_variant, with one entry per variant of the values whose text is in `at` (or of the enum with a variant called
    that), whether or not control flow tells the variants apart."""
    at = {at} if isinstance(at, str) else at
    vs = [(x, n) for x, n in TM.VARS.items() if show(x) in at or n & set(at)]
    out = []
    bv = by_variant(r, variant)
    used = set()
    for d, t in bv:
        used |= TM.t_all(t)
        for x, _ in d:
            used |= condsubs(x)
    vs = [(x, n) for x, n in vs if x in used]
    for d, t in bv:
        cs = [(d, t)]
        for x, names in vs:
            nx = []
            for d1, t1 in cs:
                if any(c.op == "is" and v and c.a[0] is x for c, v in d1):
                    nx.append((d1, t1))
                    continue
                for n in sorted(names):
                    f = TM.is_fact(x, n)
                    if not contradicts(d1, f):
                        nx.append((simp(d1 | {f}), t1))
            cs = nx
        out += [(d1, under(specialize(t1, d1), d1)) for d1, t1 in cs]
    return out


def under(t, d):
    """The value with the items of its lists only where d allows them, and without guards that d gives."""
    def f(x):
        if x.op == "list":
            return mklist([(k, y, g - d) for k, y, g in x.a[0] if any(consistent(d, q) for q in dnf(g))])
        return x
    return rewrite(t, f, {})


class View:
    """Terms and fact sets under abbreviations."""

    def __init__(self):
        self.names = {}
        self.memo = {}
        self.norm = []

    def name(self, t, nm):
        self.names[t] = mk("abbr", nm)
        self.memo = {}

    def t(self, t):
        def f(x):
            x = plain(x)
            for g in self.norm:
                x = g(x)
            return self.names.get(x, x)
        return rewrite(t, f, self.memo)

    def s(self, t):
        return show(self.t(t))

    def facts(self, g):
        return {("" if v else "!") + show(self.t(c)) for c, v in g}


def implied(d, g):
    """The guard holds whenever the conjunctive facts d do."""
    for c, v in g:
        if (c, v) in d:
            continue
        if c.op == "or" and v:
            live = [a for a in c.a[0] if any(consistent(d, k) for k in dnf(a))]
            if any(implied(d, a) for a in live) or not live:
                continue
            # one variant of an enum or another: whichever d says is not among the rest
            if len(live) == 1 and live[0] <= d:
                continue
        return False
    return True


def const_hex(t):
    """Constant bytes of a term, as hex; None when it is not constant."""
    if t is EMPTY:
        return ""
    if t.op == "str":
        return t.a[0].encode().hex()
    if t.op == "bytes":
        return t.a[0]
    if t.op == "list" and all(k == "it" and x.op == "int" and 0 <= int(x.a[0]) < 256 and not g for k, x, g in t.a[0]):
        return bytes(int(x.a[0]) for _, x, _ in t.a[0]).hex()
    return None


def byteseq(t, d=frozenset(), v=None):
    """What a byte sequence consists of under facts d: constant runs 'x:<hex>', other pieces as text, '*' before
    a piece repeated per element, ' if ...' after a conditional one."""
    show_ = v.s if v else show
    out = []

    def put_(x, star, g):
        for (_, y, g2) in (chunks(x) if not isinstance(x, str) else []):
            k = [_, y, g2][0]
            g3 = (g | g2)
            if not any(consistent(d, q) for q in dnf(g2)):
                continue
            g3 = frozenset() if implied(d, g3) else g3
            st = star or (k == "rep" and any(z.op == "elem" for z in subs(y)))
            if y is not x and (y.op == "call" and y.a[0] in ("concat", "concat_all")):
                put_(y, st, g3)
                continue
            y = specialize(y, d)
            h = const_hex(y)
            gs = " if " + ", ".join(sorted(("" if b else "!") + show_(c) for c, b in g3)) if g3 else ""
            if h is not None and not st and not gs:
                if out and out[-1].startswith("x:") and " " not in out[-1]:
                    out[-1] += h
                elif h:
                    out.append("x:" + h)
            else:
                out.append(("*" if st else "") + show_(y) + gs)
    put_(t, False, frozenset())
    return out


def hash_input(t, d=frozenset(), v=None):
    """The byte sequence a sha256 term is taken over, or None when t is not one."""
    if t.op == "call" and t.a[0] == "sha256":
        a = t.a[1]
        if not a:
            return []
        return byteseq(a[0] if len(a) == 1 else call("concat", *a), d, v)
    return None


def same_guard(g, names, want, given=lambda a: True, view=None):
    """'' when the guard equals the boolean function `want` of the named conditions wherever `given` holds.
    `names`: text -> name; 'x' and all(x) share the name of x."""
    import itertools
    sh = view.s if view else show
    unnamed = []

    def holds(fs, a):
        return all(one(c, a) == v for c, v in fs)

    def one(c, a):
        if c.op == "or":
            return any(holds(s, a) for s in c.a[0])
        k = names.get(sh(c.a[0] if c.op == "all" else c))
        if k is None:
            unnamed.append(sh(c))
            return True
        return a[k]

    def named(fs):
        for c, _ in fs:
            if c.op == "or":
                for s in c.a[0]:
                    named(s)
            else:
                one(c, every)
    ks = sorted(set(names.values()))
    every = dict.fromkeys(ks, True)
    named(g)
    if unnamed:
        return "depends on " + unnamed[0]
    for vals in itertools.product((False, True), repeat=len(ks)):
        a = dict(zip(ks, vals))
        if given(a) and holds(g, a) != bool(want(a)):
            return f"is {not want(a)} where it should be {bool(want(a))}: " + ", ".join(f"{'' if a[k] else 'not '}{k}" for k in ks)
    return ""


def by_variant(r, variant=None):
    """[(facts, value)] of every exit, one per disjunct, values specialised to the facts."""
    out = []
    ex = r.exits(variant) if variant else [(g | r.facts, t) for g, t in alts(r.ret)]
    seen = set()
    for g, t in ex:
        for d in dnf(g):
            d = tidy(d)
            x = specialize(t, d)
            if (d, x) not in seen:
                seen.add((d, x))
                out.append((d, x))
    return out


def tidy(d):
    """Facts without those about the content of a variant a value does not have, which say nothing."""
    no = {(c.a[0], c.a[1]) for c, v in d if c.op == "is" and not v}
    if not no:
        return d
    return frozenset((c, v) for c, v in d if not any(x.op == "fld" and x.a[1] and (x.a[0], x.a[1]) in no for x in own(c)))


def own(t):
    """Subterms, not looking into what loop variables hold."""
    seen, st = {t}, [t]
    while st:
        x = st.pop()
        for y in TM.children(x) if x.op != "lv" else ():
            if y not in seen:
                seen.add(y)
                st.append(y)
    return seen


def exits_dnf(r, variant):
    """[(conjunctive facts, value)] of every exit with the given variant."""
    out = []
    for g, t in r.exits(variant):
        for d in dnf(g):
            out.append((d, t))
    return out


def eqs(a, b):
    """Text of an equality."""
    x = sorted([a, b])
    return f"eq({x[0]}, {x[1]})"


def callees(f):
    """(callee record, span) of every call terminator of a function."""
    for b in f["blocks"]:
        t = b["t"]
        if t and t[0] == "call" and t[1][0] == "c" and t[1][1][0] == "fn":
            yield t[1][1][1], t[5] if len(t) > 5 else None


def main(rules):
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    c = Check(pid, tier)
    try:
        rules[pid](c)
    except Anchor as e:
        c.ob("anchor", str(e), False, "/repo", "the construct this property is anchored in was not found; failing closed")
    except extract.BuildFailed as e:
        print("the current tree could not be analysed:\n" + str(e))
        return 2
    except Exception as e:  # noqa: BLE001  the analysis could not decide: fail closed
        tb = traceback.format_exc()
        print(tb, file=sys.stderr)
        c.ob("analysis", f"{type(e).__name__}: {e}", False, "/repo", tb[-1500:])
    return c.finish(t0, seed)
