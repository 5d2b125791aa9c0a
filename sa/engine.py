"""Interprocedural value-flow and must-fact dataflow analysis over exported MIR.

For an entry function the engine computes, with calls to workspace functions analysed in the caller's context (so that
extracting or inlining a helper changes nothing):
  * for every value the terms it may come from, each with the branch facts under which it is chosen (see terms.py);
  * at every program point the branch facts that hold on every path that reaches it;
  * the calls reached, with their arguments' terms and the facts that hold there ("events").
States are joined where paths meet and loops are iterated to a fixpoint; no path is enumerated and nothing is solved.
Sequences are abstracted by their items: an item is either definite or repeated/optional under guards, so that a loop
that pushes, an iterator chain and an extend produce the same value."""

import json
import os
import re
import sys

from terms import *
import terms as TM

sys.setrecursionlimit(20000)


def strip_generics(p):
    """Drops ::<...> groups; keeps <impl X> and <T as Trait>."""
    out = []
    i = 0
    n = len(p)
    while i < n:
        if p.startswith("::<", i) and not p.startswith("::<impl ", i):
            d = 0
            j = i + 2
            while j < n:
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    s = "".join(out)
    s = s.replace("core::", "std::").replace("alloc::", "std::")
    return s


class Program:
    def __init__(self, dirname, tag=""):
        self.fns = {}
        self.adts = {}
        self.crates = []
        for f in sorted(os.listdir(dirname)):
            if not f.endswith(".json"):
                continue
            base = f[:-5]
            if "." in base:
                if base.split(".", 1)[1] != tag:
                    continue
            elif tag and os.path.exists(f"{dirname}/{base}.{tag}.json"):
                continue
            d = json.load(open(f"{dirname}/{f}"))
            self.crates.append(d["crate"])
            for fn in d["fns"]:
                fn["crate"] = d["crate"]
                fn["npath"] = strip_generics(fn["path"])
                self.fns[fn["id"]] = fn
            for a in d["adts"]:
                self.adts[a["path"]] = a
        self.by_name = {}
        for fn in self.fns.values():
            self.by_name.setdefault(fn["name"], []).append(fn)

    def find(self, crate=None, name=None, self_ty=None, trait=None, pred=None):
        r = []
        for fn in self.by_name.get(name, []) if name else self.fns.values():
            if fn["kind"] == "Closure":
                continue
            if crate and fn["crate"] != crate:
                continue
            if self_ty and not (fn.get("self") and re.search(self_ty, fn["self"])):
                continue
            if trait is not None and trait != (fn.get("trait") or "").split("::")[-1].split("<")[0]:
                continue
            if pred and not pred(fn):
                continue
            r.append(fn)
        return r


class Diverge(Exception):
    pass


class State:
    __slots__ = ("mem", "facts", "pend")

    def __init__(self, mem, facts, pend=frozenset()):
        self.mem = mem
        self.facts = facts
        self.pend = pend

    def copy(self):
        return State(dict(self.mem), self.facts, self.pend)

    def same(self, o):
        return o is not None and self.facts == o.facts and self.pend == o.pend and self.mem == o.mem


class Event:
    __slots__ = ("path", "name", "args", "facts", "span", "ret", "chain", "kind", "raw", "frame")

    def __init__(self, path, name, args, facts, span, ret, chain, kind, raw=None, frame=None):
        self.path, self.name, self.args, self.facts = path, name, args, facts
        self.span, self.ret, self.chain, self.kind, self.raw, self.frame = span, ret, chain, kind, raw, frame

    def __repr__(self):
        return f"{self.kind} {short(self.path)}({', '.join(map(show, self.args))}) @{self.span}"


class Oracle:
    """Takes one side of every branch of the functions it splits, another one in each run, until all have been taken: the
    paths of loop-free code, none joined."""

    def __init__(self, splits):
        self.splits, self.script, self.at = splits, [], 0

    def one(self, outs):
        live = [i for i, o in enumerate(outs) if o is not None]
        if len(live) < 2:
            return outs
        if self.at == len(self.script):
            self.script.append([0, len(live)])
        k = live[self.script[self.at][0]]
        self.at += 1
        return [o if i == k else None for i, o in enumerate(outs)]

    def more(self):
        """Whether there is another path; the next run takes it."""
        self.at = 0
        while self.script and self.script[-1][0] + 1 == self.script[-1][1]:
            self.script.pop()
        if self.script:
            self.script[-1][0] += 1
        return bool(self.script)


class Result:
    def __init__(self, ret, facts, events, mem):
        self.ret, self.facts, self.events, self.mem = ret, facts, events, mem

    def exits(self, variant=None):
        """[(guards, value)] of the return value whose variant is `variant`."""
        r = []
        for g, t in alts(self.ret):
            if variant is None or (t.op == "adt" and t.a[1] == variant):
                r.append((g | self.facts, t))
            elif t.op != "adt":
                r.append((g | self.facts | {is_fact(t, variant)}, mk("fld", t, variant, "0")))
        return r


INTS = frozenset(s + n for s in "ui" for n in ("size", "8", "16", "32", "64", "128"))
IDENT = {
    "deref", "as_ref", "as_str", "as_bytes", "as_slice", "borrow", "clone", "to_owned", "to_string", "to_vec",
    "into_owned", "into_bytes", "into_boxed_slice", "into_vec", "deref_mut", "as_mut_slice", "as_deref", "cloned",
    "copied", "as_mut_str", "borrow_mut", "lock", "read", "write_guard", "must_use", "into_string", "as_borrowed",
    "by_ref", "into_inner", "as_byte_slice", "into_boxed_str", "as_mut_vec", "leak", "from_ref",
    "as_display", "as_dyn_error", "to_bytes", "from_vec", "into_cow", "fuse", "into_boxed_bytes",
}
IDENT_PATHS = {
    "std::boxed::Box::new", "std::rc::Rc::new", "std::cell::RefCell::new", "std::sync::Arc::new", "std::rc::Rc::clone",
    "std::convert::Into::into", "std::convert::From::from", "std::fmt::format",
    "std::convert::identity", "parking_lot::lock_api::Mutex::new",
    "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow",
    "std::boxed::Box::pin", "std::cell::Cell::new", "std::cell::Cell::get", "std::boxed::box_new",
    "serde_bytes::Bytes::new", "std::fmt::Arguments::from_str",
}
NEWEMPTY = {"std::vec::Vec::new", "std::vec::Vec::with_capacity", "std::collections::HashMap::new",
            "std::collections::HashMap::with_capacity", "std::collections::BTreeMap::new",
            "std::collections::HashSet::new", "std::collections::BTreeSet::new", "std::collections::VecDeque::new"}
PANICS = {"std::panicking::panic", "std::rt::panic_fmt", "std::panicking::panic_fmt", "std::rt::begin_panic",
          "std::panicking::unreachable_display", "std::panicking::assert_failed", "std::option::unwrap_failed",
          "std::option::expect_failed", "std::result::unwrap_failed", "std::panicking::panic_explicit",
          "std::process::abort", "std::process::exit", "std::panicking::panic_display"}


class Engine:
    def __init__(self, prog, boundary=None, inline=None, maxdepth=14, summaries=None, budget=4000000, hazards=None):
        """boundary(fn) -> True keeps a workspace function as an opaque, pure call named by its path."""
        self.prog = prog
        self.expanding = set()
        self.hazards = hazards      # calls of other crates that are reported as events of their own, in the state before them
        self.boundary = boundary or (lambda fn: False)
        self.maxdepth = maxdepth
        self.memo = {}
        self.events = {}
        self.frames = {}
        self.analysed = set()
        self.calls_seen = 0
        self.stack = []
        self.budget = budget
        self.cfgs = {}
        self.notes = set()
        self.models = {}
        self.active = []
        self.un = ()
        self.maps = {}
        self.wide = {}
        self.oracle = None
        build_models(self)

    # ------------------------------------------------------------------ entry
    def run(self, fn, args=None):
        self.events = {}
        self.events_stack = []
        self.arrays = {}        # values seen to be arrays, borrowed as slices, with their types
        if args is None:
            args = [mk("param", fn["npath"], fn["locals"][i][1] or f"arg{i}", i) for i in range(1, fn["args"] + 1)]
        st = State({}, frozenset())
        fr = self.frame(("entry", fn["id"], tuple(args)))
        out = self.exec_fn(fn, list(args), fr, st.mem)
        if out is None:
            return Result(mk("phi", ()), frozenset(), list(self.events.values()), {})
        ret, facts, mem = out
        return Result(ret, facts, list(self.events.values()), mem)

    def frame(self, key):
        f = self.frames.get(key)
        if f is None:
            f = len(self.frames) + 1
            self.frames[key] = f
        return f

    # ------------------------------------------------------------------ CFG
    def cfg(self, fn):
        c = self.cfgs.get(fn["id"])
        if c:
            return c
        blocks = fn["blocks"]
        succ = []
        for b in blocks:
            t = b["t"]
            k = t[0]
            if k == "goto":
                s = [t[1]]
            elif k == "switch":
                s = [x[1] for x in t[2]] + [t[3]]
            elif k == "drop":
                s = [t[2]]
            elif k == "call":
                s = [t[4]] if t[4] is not None else []
            elif k == "assert":
                s = [t[5]]
            else:
                s = []
            succ.append(s)
        seen, order_ = set(), []
        st = [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            n, itr = st[-1]
            for x in itr:
                if x not in seen:
                    seen.add(x)
                    st.append((x, iter(succ[x])))
                    break
            else:
                order_.append(n)
                st.pop()
        rpo = order_[::-1]
        pos = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for i, s in enumerate(succ[b]):
                preds[s].append((b, i))
        heads = {}
        for b in rpo:
            for i, s in enumerate(succ[b]):
                if pos[s] <= pos[b]:
                    heads.setdefault(s, []).append(b)
        loops = {}
        for h, backs in heads.items():
            body = {h}
            w = list(backs)
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w += [p for p, _ in preds[x]]
            assigned = set()
            mutref = set()
            for x in body:
                for s in blocks[x]["s"]:
                    if s[0] == "=":
                        assigned.add(s[1][0])
                        if s[2][0] == "ref" and s[2][1] == "mut":
                            mutref.add(s[2][2][0])
                t = blocks[x]["t"]
                if t[0] == "call":
                    assigned.add(t[3][0])
            loops[h] = (body, assigned, mutref)
        c = (succ, rpo, pos, preds, loops)
        self.cfgs[fn["id"]] = c
        return c

    # ------------------------------------------------------------------ function execution
    def exec_fn(self, fn, args, fr, mem):
        self.analysed.add(fn["id"])
        m = dict(mem)
        for i, a in enumerate(args):
            m[(fr, i + 1)] = a
        entry = State(m, frozenset())
        self.stack.append(fn)
        saved, self.un = self.un, ()
        try:
            _, rets = self.walk(fn, fr, None, 0, entry)
        finally:
            self.stack.pop()
            self.un = saved
        if rets is None:
            return None
        ret = rets.mem.get((fr, 0), UNIT)
        ret = copied(self.escape(ret, fr, rets.mem))
        out = {k: v for k, v in rets.mem.items() if k[0] != fr}
        return ret, rets.facts, out

    def walk(self, fn, fr, region, start, entry):
        """Runs the blocks of the region (all, if None) from its first block, loops inside it to their fixpoints: the states
        on its edges, and the state it returns in. In a region that is a loop's body, its head is an ordinary block: one
        iteration."""
        succ, rpo, pos, preds, loops = self.cfg(fn)
        outs = {}
        rets = []
        skip = set()
        for b in rpo:
            if region is not None and b not in region or b in skip:
                continue
            if b == start:
                ent = [entry]
            else:
                ent = [o for p, i in preds[b] for o in [outs.get((p, i))] if o is not None]
            if not ent:
                continue
            st = self.join(ent)
            if b in loops and not (region is not None and b == start):
                n = self.definite(fr, st, loops[b])
                u = self.unrolled(fn, fr, b, st, loops[b], n) if n is not None else None
                if u is None:
                    u = self.settled(fn, fr, b, st, loops[b])
                skip |= loops[b][0]
                outs.update(u[0])
                if u[1] is not None:
                    rets.append(u[1])
                continue
            st = st.copy()
            self.budget -= 1
            if self.budget <= 0:
                raise RuntimeError("analysis budget exhausted in " + fn["path"])
            oracle = self.oracle
            if loops:       # what a loop does for one element is not a path of its own
                self.oracle = None
            try:
                res = self.exec_block(fn, fr, b, st)
            finally:
                self.oracle = oracle
            if res == "ret":
                rets.append(st)
            else:
                if self.oracle is not None and not loops and self.oracle.splits(fn):
                    res = self.oracle.one(res)
                for i, o in enumerate(res):
                    if o is not None:
                        outs[(b, i)] = o
        return outs, None if not rets else self.join(rets)

    def settled(self, fn, fr, h, e, loop):
        """The loop's fixpoint: what leaves its body on which edge, and what returns."""
        succ, rpo, pos, preds, loops = self.cfg(fn)
        body = loop[0]
        back, prev, evs = [], None, dict(self.events)
        wide = self.wide.setdefault((fr, h), {})
        wide.clear()
        start = redone = 0
        for npass in range(20):
            known = len(wide)
            st = self.join_head(fn, fr, h, [e], back, loop, prev, npass - start)
            if len(wide) > known and redone < 4:
                # a new loop variable: start over with it, so that nothing is left of the approximations before it
                start, redone = npass, redone + 1
                self.events.clear()
                self.events.update(evs)
                for lv, o in wide.values():
                    LV[lv] = {o}
                back, prev = [], None
                st = self.join_head(fn, fr, h, [e], [], loop, None, 0)
            if prev is not None and st.same(prev):
                break
            prev = st.copy()
            outs, r = self.walk(fn, fr, body, h, st)
            back = [outs[x, j] for x in rpo if x in body for j, s in enumerate(succ[x]) if s == h and (x, j) in outs]
            if not back:
                break
        else:
            self.notes.add("no fixpoint: " + fn["path"])
        return {(x, j): o for (x, j), o in outs.items() if succ[x][j] not in body}, r

    def definite(self, fr, e, loop):
        """How many items the loop's iterator has left, if it walks a short list known item by item."""
        body, assigned, mutref = loop
        n = None
        for l in mutref:
            v = e.mem.get((fr, l))
            if v is not None and v.op == "iter" and v.a[0].op == "list" and isinstance(v.a[1], int) and \
                    all(k == "it" for k, _, _ in v.a[0].a[0]):
                k = len(v.a[0].a[0]) - v.a[1]
                if 0 < k <= 8:
                    n = k if n is None else min(n, k)
        return n

    def unrolled(self, fn, fr, h, e, loop, n):
        """The loop, one iteration after another: what leaves its body on which edge, and what returns. None if it goes on
        after the list has ended."""
        succ, rpo, pos, preds, loops = self.cfg(fn)
        body = loop[0]
        exits, rets, st = {}, [], e
        saved, evs = self.un, dict(self.events)
        try:
            for i in range(n + 1):
                self.un = saved + ((h, i),)
                outs, r = self.walk(fn, fr, body, h, st)
                if r is not None:
                    rets.append(r)
                back = []
                for x in body:
                    for j, s in enumerate(succ[x]):
                        o = outs.get((x, j))
                        if o is None:
                            continue
                        if s == h:
                            back.append(o)
                        elif s not in body:
                            exits.setdefault((x, j), []).append(o)
                if not back:
                    break
                st = self.join(back)
            else:
                self.events = evs
                return None
        finally:
            self.un = saved
        return ({k: self.join(v) if len(v) > 1 else v[0] for k, v in exits.items()},
                None if not rets else self.join(rets) if len(rets) > 1 else rets[0])

    def escape(self, v, fr, mem):
        return v

    # ------------------------------------------------------------------ joins
    def join(self, states):
        if len(states) == 1:
            return states[0]
        common = states[0].facts
        for s in states[1:]:
            common = common & s.facts
        diffs = [s.facts - common for s in states]
        mem = {}
        keys = {}
        for s in states:
            for k in s.mem:
                keys[k] = keys.get(k, 0) + 1
        ns = len(states)
        for k, cnt in keys.items():
            vals = [s.mem.get(k) for s in states]
            v0 = vals[0]
            if all(v is v0 for v in vals):
                mem[k] = v0
                continue
            if cnt != ns:
                if k[0] == "obj":
                    vals = [k[1] if v is None else v for v in vals]
                    mem[k] = self.joinvals(list(zip(diffs, vals)))
                    continue
                pairs = [(d, v) for d, v in zip(diffs, vals) if v is not None]
                if len(pairs) == 1:
                    mem[k] = pairs[0][1]
                    continue
                mem[k] = self.joinvals(pairs)
                continue
            mem[k] = self.joinvals(list(zip(diffs, vals)))
        facts = common
        o = or_fact(diffs)
        if o:
            facts = simp(facts | {o})
        pend = states[0].pend
        for s in states[1:]:
            pend = pend & s.pend
        return State(mem, facts, pend)

    def joinvals(self, pairs):
        """pairs: [(guards, value)]."""
        ls = [v for _, v in pairs]
        if any(v.op == "list" for v in ls) and not all(v.op == "list" for v in ls):
            # a sequence, and the same sequence with more items
            first = {v.a[0][0][:2] for v in ls if v.op == "list" and v.a[0] and v.a[0][0][0] == "rep" and v.a[0][0][1].op == "elem" and not v.a[0][0][2]}
            rest = {v for v in ls if v.op != "list"}
            if len(first) == 1 and len(rest) == 1 and {x.a[0] for _, x in first} == rest and all(v.a[0] for v in ls if v.op == "list"):
                f = next(iter(first))
                pairs = [(g, v if v.op == "list" else mklist([rep(f[1])])) for g, v in pairs]
                ls = [v for _, v in pairs]
        if all(v.op == "list" for v in ls):
            v = self.joinlists(pairs)
            if v is not None:
                return v
        if any(iscat(v) and v is not EMPTY for v in ls) and all(iscat(v) or v.op != "list" for v in ls):
            cs = [chunks(v) for v in ls]
            short_ = min(cs, key=len)
            if all(c[:len(short_)] == short_ for c in cs) and any(len(c) > len(short_) for c in cs):
                v = self.joinlists([(g, mklist(c)) for (g, _), c in zip(pairs, cs)])
                if v is not None:
                    return mkcat(list(v.a[0]))
        if any(v.op == "iter" for v in ls) and all(v.op == "iter" and v.a[0] is ls[0].a[0] for v in ls):
            return mk("iter", ls[0].a[0], "*")
        return mkphi(pairs)

    def joinlists(self, pairs):
        """Sequences that share a prefix: the remaining items become optional items under their branch's guards."""
        ls = [v.a[0] for _, v in pairs]
        n = 0
        while all(len(l) > n for l in ls) and all(l[n] == ls[0][n] for l in ls):
            n += 1
        pre = list(ls[0][:n])
        tails = [(g, l[n:]) for (g, _), l in zip(pairs, ls)]
        # if both branches give definite, different items the sequences are alternatives, not growth
        if sum(1 for _, t in tails if any(i[0] == "it" for i in t)) > 1 and not any(len(t) == 0 for _, t in tails):
            if len({len(t) for _, t in tails}) == 1 and len(tails[0][1]) <= 6 and \
                    all(all(i[0] == "it" for i in t) for _, t in tails):
                # position-wise join
                out = list(pre)
                for k in range(len(tails[0][1])):
                    out.append(it(mkphi([(g, t[k][1]) for g, t in tails])))
                return mklist(out)
            if all(all(i[0] == "it" for i in t) for _, t in tails):
                return None
        out = list(pre)
        # what is in the shared part since its last definite item may be this loop's; before that it is another's
        n0 = max((i + 1 for i, x in enumerate(pre) if x[0] == "it"), default=0)
        for g, t in tails:
            nth = {}        # an item is there already if as many like it are as came before it on this branch
            for k, x, ig in t:
                for g2, x2 in alts(x):
                    r = rep(x2, simp(g | ig | g2))
                    n = nth[k, r] = nth.get((k, r), 0) + 1
                    # the same value under weaker guards will do
                    if sum(o[0] == "rep" and o[1] is x2 and o[2] <= r[2] for o in out[n0:]) >= n:
                        continue
                    if n == 1:
                        out = out[:n0] + [o for o in out[n0:] if not (o[0] == "rep" and o[1] is x2 and r[2] < o[2])]
                    out.append(r)
        if len(out) > 64:
            m = {}
            for k, x, g in out:
                m[x] = m[x] & g if x in m else g
            out = [rep(x, g) for x, g in m.items()]
        return mklist(out)

    def join_head(self, fn, fr, b, ent, back, loop, prev, npass):
        body, assigned, mutref = loop
        e = self.join(ent) if ent else None
        if e is None:
            st = self.join(back)
            return st
        st = e.copy()
        # iterators advanced in the loop stand for any position; integers assigned in it are loop variables
        for l in assigned | mutref:
            k = (fr, l)
            v = st.mem.get(k)
            if v is None:
                continue
            if v.op == "iter" and v.a[1] != "*":
                st.mem[k] = mk("iter", v.a[0], "*")
            elif l in assigned and v.op in ("int",) and fn["locals"][l][0] in INTS:
                lv = mk("lv", fr, b, l)
                LV.setdefault(lv, set()).add(v)
                st.mem[k] = lv
            elif v.op == "ref" and l in mutref:
                for _ in range(4):
                    w = st.mem.get(v.a[0]) if not v.a[1] else None
                    if w is None or w.op != "ref":
                        break
                    v = w
                if not v.a[1] and w is not None and w.op == "iter" and w.a[1] != "*":
                    st.mem[v.a[0]] = mk("iter", w.a[0], "*")
        # what is known from an earlier walk over the same sequence is not about the elements of this one
        for l in assigned | mutref:
            v = e.mem.get((fr, l))
            if v is None or v.op == "iter" and v.a[1] == "*":
                continue
            # a range is its own iterator
            self.again(st, [v.a[0] if v.op == "iter" else v], (fr, b))
        for k, (lv, _) in self.wide.get((fr, b), {}).items():
            st.mem[k] = lv
        if back:
            bk = self.join(back) if len(back) > 1 else back[0]
            common = st.facts & bk.facts
            pend = frozenset(f for f in bk.facts - common)
            # what held in an earlier iteration, but not that there was a next element then
            d = frozenset(f for f in bk.facts - common if not (f[0].op == "is" and f[0].a[0].op == "next"))
            mem = dict(st.mem)
            seqs = [v.a[0] for l in assigned | mutref for v in [st.mem.get((fr, l))] if v is not None and v.op == "iter"]
            for k, v in bk.mem.items():
                o = mem.get(k)
                if o is None:
                    if k[0] == "obj":
                        o = k[1]
                    else:
                        continue
                if o is v:
                    continue
                p = prev.mem.get(k) if prev is not None else None
                mem[k] = self.grown(fr, b, k, o, v, d, p, npass, seqs, True)
            for k in list(mem):
                if prev is not None and prev.mem.get(k) is not None and prev.mem[k].op == "lv" and \
                        prev.mem[k].a[:2] == (fr, b) and mem[k].op != "lv":
                    LV.setdefault(prev.mem[k], set()).add(mem[k])
                    mem[k] = prev.mem[k]
            return State(mem, common, pend)
        return st

    def grown(self, fr, b, k, o, v, d, p, npass, seqs, top=False):
        """The value at a loop's head of what is o before the loop and v (where d holds) after an iteration; p: the value
        there in the pass before, if any."""
        if o is v:
            return o
        if o.op == "lv":
            LV.setdefault(o, set()).add(v)
            return o
        if o.op == "iter" and v.op == "iter":
            return o
        if o.op == "adt" and v.op == "phi" and all(x.op == "adt" and x.a[:3] == o.a[:3] for _, x in v.a[0]):
            v = mk("adt", *o.a[:3], tuple(self.joinvals([(g, x.a[3][i]) for g, x in v.a[0]]) for i in range(len(o.a[3]))))
        if o.op == v.op == "adt" and o.a[:3] == v.a[:3]:
            ps = p.a[3] if p is not None and p.op == "adt" and p.a[:3] == o.a[:3] else (None,) * len(o.a[3])
            return mk("adt", *o.a[:3], tuple(self.grown(fr, b, (k, i), x, y, d, z, npass, seqs)
                                             for i, (x, y, z) in enumerate(zip(o.a[3], v.a[3], ps))))
        if p is not None and (o.op == v.op == p.op == "list" or iscat(v) and iscat(p)):
            co, cv, cp = (list(x.a[0]) if x.op == "list" else chunks(x) for x in (o, v, p))
            if len(cv) > len(cp) > len(co) and cp[:len(co)] == co and cv[:len(cp)] == cp and self.again_same(cp[len(co):], cv[len(cp):], d):
                return p
        if o.op == "list" and v.op == "list":
            # growth: the loop's items, under the guards of the iteration that adds them
            done = self.maps.get((fr, b, k))
            if done is not None and p is done and v.a[0][:len(done.a[0])] == done.a[0]:
                v = mklist(o.a[0] + v.a[0][len(done.a[0]):])
            j = self.joinlists([(frozenset(), o), (d, v)])
            self.maps.pop((fr, b, k), None)
            if j is not None:
                mp = self.mapped(seqs, o, j)
                if mp is not None:
                    self.maps[(fr, b, k)] = mp
                    return mp
                return self.squash(j) if npass >= 5 and j is not p and p is not None else j
        if o is EMPTY and (p is None or p is EMPTY) and v.op in ("call", "str", "bytes", "elem", "fld", "param") and not iscat(v):
            # one piece after one iteration: more after more, unless the next pass shows it to be another value
            return mkcat([rep(v, d)])
        if iscat(v) or iscat(o) and not (p is not None and iscat(p) and p is not EMPTY):
            j = self.joinvals([(frozenset(), o), (d, v)])
            if iscat(j):
                return mkcat(list(self.squash(mklist(chunks(j))).a[0])) if npass >= 5 and j is not p and p is not None else j
        if p is None or npass < 3:
            if v.op == "lv" and v.a[:2] == (fr, b):
                LV.setdefault(v, set()).add(o)
                return v
        m = self.earlier(seqs, v, d, (fr, b, k))
        j = mkphi([(frozenset(), o), (subst_facts(d, m) if m else d, subst(v, m) if m else v)])
        if npass >= 3 and p is not None and j is not p:
            lv = mk("lv", fr, b, k)
            LV.setdefault(lv, set()).update(x for x in (o, v) if x is not lv)
            if top:
                self.wide.setdefault((fr, b), {})[k] = (lv, o)
            return lv
        return j

    def again_same(self, have, new, d):
        """Another iteration adds nothing that is not among what iterations add, in this order."""
        i = 0
        for _, x, g in new:
            for g2, x2 in alts(x):
                g3 = simp(d | g | g2)
                while i < len(have) and not (have[i][0] == "rep" and have[i][1] is x2 and have[i][2] <= g3):
                    i += 1
                if i == len(have):
                    return False
                i += 1
        return True

    def mapped(self, seqs, o, j):
        """A list that gets one item for each item of the walked one, under the same guards, is it mapped."""
        n = len(o.a[0])
        new = j.a[0][n:]
        if j.a[0][:n] != o.a[0]:
            return None
        for q in seqs:
            if q.op != "list" or len(q.a[0]) != len(new) or not new:
                continue
            nx = (mk("is", mk("next", q), "Some"), True)
            if all(nx in g and g - {nx} == g0 for (_, _, g), (_, _, g0) in zip(new, q.a[0])):
                return mklist(o.a[0] + tuple((k, x, g0) for (_, x, _), (k, _, g0) in zip(new, q.a[0])))
        return None

    def earlier(self, seqs, v, d, key):
        """New names for the elements of this iteration in what an earlier one left behind: which one it was differs from
        place to place."""
        es = set()
        for q in seqs:
            for t in [v, *(c for c, _ in d)]:
                es |= {x for x in t_all(t) if x.op == "elem" and x.a[0] is q}
            if q.op == "list":
                for kind, x, _ in q.a[0]:
                    if kind == "rep":
                        xs = {y for y in t_all(x) if y.op == "elem"}
                        es |= {y for y in xs if not any(y in t_all(z) for z in xs if z is not y)}
        return {x: mk("elem", x.a[0], ("earlier", key)) for x in es if not (isinstance(x.a[1], tuple) and x.a[1][0] == "earlier")}

    def again(self, st, seqs, key, ors=False):
        """These sequences are walked (again): what is known of their elements is about those of an earlier walk."""
        for q in seqs:
            ql = mk("is", mk("next", q), "Some")
            # alternatives some of which are that the earlier walk has ended
            over = {f for f in st.facts if ors and f[0].op == "or" and any((ql, False) in s for s in f[0].a[0])}
            nx = frozenset(f for f in st.facts if f[0] is ql)
            if not nx and not over:
                continue
            al = frozenset(f for f in st.facts if f[0].op == "all")
            rest = st.facts - al - nx
            m = self.earlier([q], mk("tup", *st.mem.values()), rest, key + ("walk",))
            if m:
                m[q] = q
            if over:
                was = {mk("next", q): mk("next", call("walked", q))}
                rest = (rest - over) | frozenset(x for f in over for x in subst_facts(frozenset([f]), was))
            st.facts = (subst_facts(rest, m) if m else rest) | al
            if m:
                st.mem = {k: subst(x, m) for k, x in st.mem.items()}

    def squash(self, l):
        m = {}
        for k, x, g in l.a[0]:
            m[x] = m[x] & g if x in m else g
        return mklist([rep(x, frozenset()) for x in m])

    # ------------------------------------------------------------------ facts
    def assume(self, st, fs):
        """Adds facts; False if they contradict."""
        fac = st.facts
        for f in fs:
            if f in fac:
                continue
            if f[0] is TRUE or f[0] is FALSE:
                if (f[0] is TRUE) != f[1]:
                    return False
                continue
            if contradicts(fac, f):
                return False
            fac = fac | {f}
            c, v = f
            if c.op == "is" and c.a[0].op == "next" and not v:
                seq = c.a[0].a[0]
                keys = self.elem_terms(seq)
                add = set()
                for pf in st.pend:
                    if pf[0].op == "all":
                        continue
                    if pf[0].op == "is" and pf[0].a[0].op == "next":
                        continue
                    s = condsubs(pf[0])
                    if any(x in s or (x.op == "elem*" and any(y.op == "elem" and y.a[0] is seq for y in s)) for x in keys):
                        add.add((mk("all", pf[0]), pf[1]))
                fac = fac | add
            elif c.op == "lt" and c.a[0].op == "lv" and not v:
                # a count that has run over all positions of a sequence
                i = ("idx", c.a[0].n)
                fac = fac | {(mk("all", pf[0]), pf[1]) for pf in st.pend if pf[0].op not in ("all", "lt") and any(
                    x.op == "elem" and x.a[1] == i and self.length(x.a[0]) is c.a[1] for x in condsubs(pf[0]))}
        st.facts = simp(fac)
        return True

    def elem_terms(self, seq):
        r = [mk("elem*", seq)]
        if seq.op == "list":
            r += [x for _, x, _ in seq.a[0] if not isconst(x)]
        return r

    def assume_any(self, st, gss):
        """One of the fact sets holds."""
        ok_ = []
        for g in gss:
            if not any(contradicts(st.facts, f) or (f[0] is TRUE and not f[1]) or (f[0] is FALSE and f[1]) for f in g):
                ok_.append(frozenset(f for f in g if f[0] is not TRUE and f[0] is not FALSE))
        if not ok_:
            return False
        common = ok_[0]
        for g in ok_[1:]:
            common = common & g
        if not self.assume(st, sorted(common, key=lambda f: f[0].n)):
            return False
        rest = [g - common for g in ok_]
        o = or_fact(rest)
        if o:
            st.facts = simp(st.facts | {o})
        return True

    def split_bool(self, v, val, facts):
        """Fact sets, one of which holds when v == val."""
        r = []
        for g, t in alts(v):
            if g and not consistent(facts, g):
                continue
            if t.op == "bool":
                if t.a[0] == val:
                    r.append(g)
                continue
            r.append(g | self.cond(t, val))
        return r

    def cond(self, t, val):
        while t.op == "un" and t.a[0] == "Not":
            t, val = t.a[1], not val
        if t.op == "bin" and t.a[0] == "BitAnd" and val:
            return self.cond(t.a[1], True) | self.cond(t.a[2], True)
        if t.op == "bin" and t.a[0] == "BitOr" and not val:
            return self.cond(t.a[1], False) | self.cond(t.a[2], False)
        return frozenset([(t, val)])

    def split_variant(self, v, variant, facts):
        r = []
        for g, t in alts(v):
            if g and not consistent(facts, g):
                continue
            if t.op == "adt" and t.a[0] != "tuple":
                if t.a[1] == variant:
                    r.append(g)
                continue
            f = self.variant_fact(t, variant)
            if contradicts(facts, f):
                continue
            r.append(g | {f})
        return r

    def variant_fact(self, t, variant, val=True):
        if t.op == "cmp":
            a, b = t.a
            if variant == "Less":
                return (mk("lt", a, b), val)
            if variant == "Greater":
                return (mk("lt", b, a), val)
            return (mkeq(a, b), val)
        return is_fact(t, variant, val)

    # ------------------------------------------------------------------ places
    def project(self, v, variant, name, adt, facts=frozenset()):
        if adt in ("std::boxed::Box", "std::ptr::Unique", "std::ptr::NonNull"):
            return v
        op = v.op
        if op == "adt":
            if variant and v.a[1] != variant and v.a[1] != "":
                return UNINIT
            try:
                return v.a[3][v.a[2].index(name)]
            except ValueError:
                return mk("fld", v, variant, name)
        if op == "phi":
            out = []
            for g, t in v.a[0]:
                if t.op == "adt" and variant and t.a[1] != variant:
                    continue
                if g and facts and not consistent(facts, g):
                    continue
                p = self.project(t, variant, name, adt, facts)
                if p is UNINIT:
                    continue
                if t.op != "adt" and variant:
                    f = self.variant_fact(t, variant)
                    if contradicts(facts, f):
                        continue
                    g = g | {f}
                out.append((g, p))
            if not out:
                return UNINIT
            return mkphi(out)
        if op == "upd":
            base, key, val = v.a
            if key == (variant, name) or (key[1] == name and (not key[0] or not variant)):
                return val
            return self.project(base, variant, name, adt, facts)
        if op == "clo":
            i = int(name)
            return v.a[1][i] if i < len(v.a[1]) else UNINIT
        if op == "uninit":
            return UNINIT
        if op == "ref":
            root, pr = v.a
            return mk("ref", root, pr + ((variant, name),)) if adt in ("std::ptr::Unique",) else mk("fld", v, variant, name)
        return mk("fld", v, variant, name)

    def read_loc(self, mem, root, proj, facts=frozenset()):
        v = mem.get(root)
        if v is None:
            v = root[1] if root[0] == "obj" else UNINIT
        for variant, name in proj:
            if variant == "@":
                v = self.index(v, name)
            else:
                v = self.project(v, variant, name, None, facts)
        return v

    def deref(self, mem, v, facts=frozenset()):
        if v.op == "ref":
            return self.read_loc(mem, v.a[0], v.a[1], facts)
        if v.op == "phi" and any(t.op == "ref" for _, t in v.a[0]):
            return mkphi([(g, self.deref(mem, t, facts)) for g, t in v.a[0]])
        o = mem.get(("obj", v))
        return v if o is None else o

    def val(self, mem, v):
        """Current value behind any number of mutable pointers."""
        for _ in range(6):
            n = self.deref(mem, v)
            if n is v or (n.op != "ref" and n.op != "phi"):
                return n
            v = n
        return v

    def index(self, v, i, st=None):
        if i.op == "adt":
            return call("slice", v, i)
        if v.op == "list" and i.op == "int" and int(i.a[0]) >= 0 and all(k == "it" for k, _, _ in v.a[0][: int(i.a[0]) + 1]) \
                and int(i.a[0]) < len(v.a[0]):
            return v.a[0][int(i.a[0])][1]
        if v.op == "list" and i.op == "int" and int(i.a[0]) < 0 and all(k == "it" for k, _, _ in v.a[0]) \
                and -int(i.a[0]) <= len(v.a[0]):
            return v.a[0][int(i.a[0])][1]
        if v.op == "phi":
            return mkphi([(g, self.index(t, i, st)) for g, t in v.a[0]])
        if i.op == "pos" and len(i.a) == 1 and i.a[0].op == "elem":
            # what is where an element was found is the element
            q = i.a[0].a[0]
            y = v.a[0][0] if v.op == "list" and len(v.a[0]) == 1 else None
            if q is v or y is not None and y[0] == "rep" and not y[2] and y[1].op == "elem" and y[1].a[0] is q:
                return i.a[0]
        if i.op != "int" and self.walks(v, i, st):
            if v.op == "call" and v.a[0] in ("sorted", "reversed") and v.a[1][0].op == "list" and len(v.a[1][0].a[0]) == 1:
                st.facts = st.facts | {(mk("inorder", v), True)}
                return v.a[1][0].a[0][0][1]
            if v.op == "list" and v.a[0]:
                return mkphi([(g, x) for _, x, g in v.a[0]]) if len(v.a[0]) > 1 else v.a[0][0][1]
            return mk("elem", v, ("idx", i.n))
        return mk("at", v, i)

    def walks(self, v, i, st):
        """The index runs over all positions of the sequence, from the first to the last."""
        if st is None:
            return False
        n = self.length(v)
        if i.op == "elem" and i.a[0].op == "adt" and i.a[0].a[0].split("::")[-1] == "Range":
            lo, hi = i.a[0].a[3]
            return lo is mk("int", "0") and hi is n
        if i.op == "lv":
            return LV.get(i, set()) <= {mk("int", "0"), mk("bin", "Add", *order(i, mk("int", "1")))} and (mk("lt", i, n), True) in st.facts
        return False

    def read_place(self, st, fr, place):
        l, proj = place
        v = st.mem.get((fr, l), UNINIT)
        variant = None
        for e in proj:
            k = e[0]
            if k == "*":
                v = self.deref(st.mem, v, st.facts)
            elif k == "f":
                v = self.project(v, variant, e[1], e[2], st.facts)
                variant = None
            elif k == "dc":
                variant = e[1]
            elif k == "i":
                v = self.index(v, st.mem.get((fr, e[1]), UNINIT), st)
            elif k == "ci":
                v = self.index(v, mk("int", str(-e[1] if e[2] else e[1])))
            elif k == "sub":
                v = call("subslice", v, mk("int", str(e[1])), mk("int", str(e[2])), mk("bool", bool(e[3])))
            else:
                pass
        return v

    def resolve(self, st, fr, place):
        """(root, proj) of a place, following mutable pointers."""
        l, proj = place
        root, pr = (fr, l), ()
        variant = None
        for e in proj:
            k = e[0]
            if k == "*":
                cur = self.read_loc(st.mem, root, pr, st.facts)
                if cur.op == "ref":
                    root, pr = cur.a
                elif cur.op == "phi" and any(t.op == "ref" for _, t in cur.a[0]):
                    return ("many", cur, proj[proj.index(e) + 1:])
                else:
                    root, pr = ("obj", cur), ()
                variant = None
            elif k == "f":
                if e[2] not in ("std::boxed::Box", "std::ptr::Unique", "std::ptr::NonNull"):
                    pr = pr + ((variant, e[1]),)
                variant = None
            elif k == "dc":
                variant = e[1]
            elif k == "i":
                pr = pr + (("@", st.mem.get((fr, e[1]), UNINIT)),)
            elif k == "ci":
                pr = pr + (("@", mk("int", str(-e[1] if e[2] else e[1]))),)
        return root, pr

    def setin(self, v, proj, val):
        if not proj:
            return val
        (variant, name), rest = proj[0], proj[1:]
        if variant == "@" and name.op == "adt":
            return self.patched(v, name, self.setin(call("slice", v, name), rest, val))
        if variant == "@":
            inner = self.setin(self.index(v, name), rest, val)
            if v.op == "list" and name.op == "int" and 0 <= int(name.a[0]) < len(v.a[0]) and all(k == "it" for k, _, _ in v.a[0]):
                items = list(v.a[0])
                items[int(name.a[0])] = it(inner)
                return mklist(items)
            return mk("mut", "index_set", 0, (v, name, inner))
        if v.op == "adt" and name in v.a[2] and (not variant or variant == v.a[1]):
            i = v.a[2].index(name)
            new = self.setin(v.a[3][i], rest, val)
            return mk("adt", v.a[0], v.a[1], v.a[2], v.a[3][:i] + (new,) + v.a[3][i + 1:])
        if v.op == "clo":
            i = int(name)
            new = self.setin(v.a[1][i], rest, val)
            return mk("clo", v.a[0], v.a[1][:i] + (new,) + v.a[1][i + 1:])
        inner = self.setin(self.project(v, variant, name, None), rest, val) if rest else val
        over, u = [], v
        while u.op == "upd" and u.a[1] != (variant, name):
            over.append(u)
            u = u.a[0]
        if u.op == "upd":
            # the field has been set before: its value is replaced
            u = mk("upd", u.a[0], u.a[1], inner)
            for o in reversed(over):
                u = mk("upd", u, o.a[1], o.a[2])
            return u
        return mk("upd", v, (variant, name), inner)

    def patched(self, v, r, val):
        """v with the part in the range replaced."""
        kind = r.a[1] or r.a[0].split("::")[-1]
        f = dict(zip(r.a[2], r.a[3]))
        ps = [(f.get("start", mk("int", "0")), f.get("end"), val)]
        if kind not in ("Range", "RangeTo", "RangeFrom", "RangeFull"):
            return call("patch", v, r, val)
        u = v
        while u.op == "call" and u.a[0] == "patch" and len(u.a[1]) == 4:
            ps.append(tuple(u.a[1][1:]))
            u = u.a[1][0]
        n = u.a[1] if u.op == "repeat" else None
        n = n if isinstance(n, T) else mk("int", str(n)) if n is not None and str(n).isdigit() else n
        end = n if isinstance(n, T) and n.op == "int" else mk("len", u)
        ps = [(a, end if b is None else b, x) for a, b, x in ps]
        if end.op == "int" and all(a.op == b.op == "int" for a, b, _ in ps):
            parts, at = [], "0"
            for a, b, x in sorted(ps, key=lambda p: int(p[0].a[0])):
                if str(a.a[0]) != at:
                    break
                parts.append(x)
                at = str(b.a[0])
            else:
                if at == str(end.a[0]):
                    return mkcat([it(x) for x in parts])
        return call("patch", v, *ps[0])

    def write_loc(self, mem, root, proj, val):
        if not proj:
            mem[root] = val
            return
        v = mem.get(root)
        if v is None:
            v = root[1] if root[0] == "obj" else UNINIT
        mem[root] = self.setin(v, proj, val)

    def write_ptr(self, mem, ptr, val):
        """*ptr = val"""
        if ptr.op == "ref":
            self.write_loc(mem, ptr.a[0], ptr.a[1], val)
        elif ptr.op == "phi":
            for g, t in ptr.a[0]:
                if t.op == "ref":
                    old = self.deref(mem, t)
                    self.write_ptr(mem, t, self.joinvals([(g, val), (frozenset(), old)]))
        else:
            mem[("obj", ptr)] = val

    def write_place(self, st, fr, place, val):
        r = self.resolve(st, fr, place)
        if r[0] == "many":
            for g, t in r[1].a[0]:
                if t.op == "ref":
                    root, pr = t.a
                    variant = None
                    for e in r[2]:
                        if e[0] == "f":
                            pr = pr + ((variant, e[1]),)
                            variant = None
                        elif e[0] == "dc":
                            variant = e[1]
                    old = self.read_loc(st.mem, root, pr)
                    self.write_loc(st.mem, root, pr, self.joinvals([(g, val), (frozenset(), old)]))
            return
        self.write_loc(st.mem, r[0], r[1], val)

    # ------------------------------------------------------------------ operands and rvalues
    def const(self, c, named=None):
        k = c[0]
        if k == "str":
            return mk("str", c[1])
        if k == "bytes":
            return mk("bytes", c[1])
        if k == "int":
            return mk("int", c[1])
        if k == "bool":
            return mk("bool", c[1])
        if k == "char":
            return mk("char", c[1])
        if k == "arr":
            return mklist([it(self.const(x)) for x in c[1]])
        if k == "tuple":
            xs = [self.const(x) for x in c[1]]
            return tup(*xs) if xs else UNIT
        if k == "adt":
            if c[1] == "std::borrow::Cow" and len(c[3]) == 1:
                return self.const(c[3][0][1])
            return mk("adt", c[1], c[2], tuple(x[0] for x in c[3]), tuple(self.const(x[1]) for x in c[3]))
        if k == "fn":
            return mk("fn", json.dumps(c[1], sort_keys=True))
        if k == "closure":
            return mk("clo", c[1], ())
        if k == "static":
            return mk("static", c[1])
        if k == "opaque":
            return mk("const", named or c[1])
        return mk("const", json.dumps(c))

    def operand(self, st, fr, o):
        if o[0] in ("cp", "mv"):
            return self.read_place(st, fr, o[1])
        return self.const(o[1], o[2] if len(o) > 2 else None)

    def number(self, fn, o):
        """The operand is an integer local (so that & and | are not the boolean connectives)."""
        return o[0] in ("cp", "mv") and not o[1][1] and fn["locals"][o[1][0]][0] in INTS

    def lift(self, vals, f, facts):
        """f over the alternatives of the values (bounded)."""
        n = 1
        for v in vals:
            n *= len(alts(v))
        if n == 1:
            return f(*[alts(v)[0][1] if v.op == "phi" else v for v in vals])
        if n > 24:
            return f(*vals)
        res = [(frozenset(), ())]
        for v in vals:
            nr = []
            for g, xs in res:
                for g2, t in alts(v):
                    if not consistent(g, g2) or not consistent(facts, g2):
                        continue
                    nr.append((g | g2, xs + (t,)))
            res = nr
        if not res:
            return f(*vals)
        return mkphi([(g, f(*xs)) for g, xs in res])

    def binop(self, op, a, b, facts=frozenset()):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.lift([a, b], lambda x, y: self.cmpop(op, x, y), facts)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        r = self.arith(base, a, b)
        if "WithOverflow" in op:
            if r.op == "int" and 0 <= int(r.a[0]) < 2**31:
                return tup(r, mk("bool", False))
            return tup(r, mk("ovf", base, a, b))
        return r

    def arith(self, op, a, b):
        if a.op == "int" and b.op == "int":
            x, y = int(a.a[0]), int(b.a[0])
            f = {"Add": x + y, "Sub": x - y, "Mul": x * y}.get(op)
            if f is not None:
                return mk("int", str(f))
        if a.op == "bool" and b.op == "bool":
            f = {"BitAnd": a.a[0] and b.a[0], "BitOr": a.a[0] or b.a[0], "BitXor": a.a[0] != b.a[0]}.get(op)
            if f is not None:
                return mk("bool", f)
        if op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor"):
            a, b = order(a, b)
        return mk("bin", op, a, b)

    def cmpop(self, op, a, b):
        if op == "Eq":
            return mkeq(a, b) if not (a.op == "bool" or b.op == "bool") else self.eqbool(a, b, True)
        if op == "Ne":
            return self.notv(self.cmpop("Eq", a, b))
        if a.op == "int" and b.op == "int":
            x, y = int(a.a[0]), int(b.a[0])
            return mk("bool", {"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
        if op == "Lt":
            return self.less(a, b)
        if op == "Gt":
            return self.less(b, a)
        if op == "Le":
            return self.notv(self.less(b, a))
        return self.notv(self.less(a, b))

    def less(self, a, b):
        """a < b, with one spelling for comparisons of an integer with a constant."""
        if a.op == "int" and b.op == "int":
            return mk("bool", int(a.a[0]) < int(b.a[0]))
        if a.op == "int":
            return self.notv(self.less(b, mk("int", str(int(a.a[0]) + 1))))
        if b.op == "int" and a.op == "len":
            n = int(b.a[0])
            if n <= 0:
                return FALSE
            if n == 1:
                return mk("eq", *order(a, mk("int", "0")))
        return mk("lt", a, b)

    def eqbool(self, a, b, val):
        if a.op == "bool":
            a, b = b, a
        if a.op == "bool":
            return mk("bool", a.a[0] == b.a[0])
        return a if b.a[0] else self.notv(a)

    def notv(self, v):
        if v.op == "bool":
            return mk("bool", not v.a[0])
        if v.op == "un" and v.a[0] == "Not":
            return v.a[1]
        if v.op == "phi":
            return mkphi([(g, self.notv(t)) for g, t in v.a[0]])
        return mk("un", "Not", v)

    def agg(self, kind, ops):
        k = kind[0]
        if k == "array":
            return mklist([it(o) for o in ops])
        if k == "tuple":
            return tup(*ops) if ops else UNIT
        if k == "adt":
            if kind[1] == "std::borrow::Cow" and len(ops) == 1:
                return ops[0]
            return mk("adt", kind[1], kind[2], tuple(kind[3]), tuple(ops))
        if k == "closure":
            return mk("clo", kind[1], tuple(ops))
        if k == "rawptr":
            return ops[0]
        return mk("agg", kind[0], *ops)

    def rvalue(self, st, fr, fn, rv):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref":
            if rv[1] == "mut":
                r = self.resolve(st, fr, rv[2])
                if r[0] == "many":
                    out = []
                    for g, t in r[1].a[0]:
                        if t.op == "ref":
                            root, pr = t.a
                            variant = None
                            for e in r[2]:
                                if e[0] == "f":
                                    pr = pr + ((variant, e[1]),)
                                    variant = None
                                elif e[0] == "dc":
                                    variant = e[1]
                            out.append((g, mk("ref", root, pr)))
                        else:
                            out.append((g, t))
                    return mkphi(out)
                root, pr = r
                if root[0] == "obj" and not pr:
                    return root[1]
                # a mutable borrow of an immutable opaque reference's pointee is the pointee's pointer itself
                return mk("ref", root, pr)
            return self.read_place(st, fr, rv[2])
        if k == "bin":
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            if rv[1] in ("BitAnd", "BitOr") and not any(self.number(fn, o) for o in rv[2:4]) and (a.op in ("phi", "un", "lt", "eq") or b.op in ("phi", "un", "lt", "eq")):
                return self.boolop(rv[1], a, b, st.facts)
            return self.binop(rv[1], a, b, st.facts)
        if k == "un":
            a = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                return self.notv(a)
            if rv[1] == "PtrMetadata":
                return self.length(self.val(st.mem, a))
            return mk("un", rv[1], a)
        if k == "cast":
            a = self.operand(st, fr, rv[2])
            if rv[1].startswith("IntToInt"):
                if a.op == "int":
                    return a
                if narrowing(rv[4], rv[3]):
                    return mk("cast", rv[3], a)
                return a
            if "Unsize" in rv[1] and re.match(r"&(mut )?\[[^;\[\]]+; \d+\]$", rv[4]):
                v = self.val(st.mem, a)
                if v.op not in ("ref", "list"):
                    self.arrays[v] = rv[4]
            return a
        if k == "discr":
            v = self.read_place(st, fr, rv[1])
            return mk("discr", v, tuple((x[0], x[1]) for x in rv[2]))
        if k == "agg":
            return self.agg(rv[1], [self.operand(st, fr, o) for o in rv[2]])
        if k == "repeat":
            return mk("repeat", self.operand(st, fr, rv[1]), rv[2])
        return mk("other", fn["id"], str(rv[1])[:80])

    def boolop(self, op, a, b, facts):
        al = []
        short_val = op == "BitOr"
        for g in self.split_bool(a, short_val, facts):
            al.append((g, mk("bool", short_val)))
        for g in self.split_bool(a, not short_val, facts):
            for g2, t in alts(b):
                al.append((g | g2, t))
        return mkphi(al)

    def length(self, v):
        if v.op == "list" and all(k == "it" for k, _, _ in v.a[0]):
            return mk("int", str(len(v.a[0])))
        b = const_bytes(v)
        if b is not None:
            return mk("int", str(len(b)))
        return mk("len", v)

    # ------------------------------------------------------------------ blocks
    def exec_block(self, fn, fr, b, st):
        blk = fn["blocks"][b]
        for s in blk["s"]:
            if s[0] == "=":
                v = self.rvalue(st, fr, fn, s[2])
                self.write_place(st, fr, s[1], v)
            elif s[0] == "setd":
                pass
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [st]
        if k == "ret":
            return "ret"
        if k == "drop":
            return [st]
        if k == "switch":
            return self.switch(st, fr, t)
        if k == "assert" and t[3] == "other":  # pointer alignment and null checks of compiler-made code
            return [st]
        if k == "assert":
            c = self.operand(st, fr, t[1])
            self.event(fr, (b, self.un) if self.un else b, Event("assert::" + t[3], t[3], tuple(self.operand(st, fr, o) for o in t[4]), st.facts, t[6],
                                    c, self.chain(), "assert", t[2]))
            gs = self.split_bool(c, t[2], st.facts)
            if not self.assume_any(st, gs):
                return [None]
            return [st]
        if k == "call":
            try:
                v = self.do_call(fn, fr, b, st, t)
            except Diverge:
                return [None] if t[4] is not None else []
            if t[4] is None:
                return []
            self.write_place(st, fr, t[3], v)
            return [st]
        return []

    def chain(self):
        return tuple(f["path"] for f in self.stack)

    def event(self, fr, b, ev):
        ev.frame = (fr, b)
        self.events[(fr, b, ev.path)] = ev

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        targets = t[2]
        outs = []
        if t[4] == "bool":
            # targets: [["0", false_bb]], otherwise true
            vals = [x[0] for x in targets]
            for x in targets:
                s = st.copy()
                outs.append(s if self.assume_any(s, self.split_bool(v, x[0] != "0", s.facts)) else None)
            s = st
            other = vals == ["0"]
            if len(vals) == 2:
                outs.append(None)
            else:
                outs.append(s if self.assume_any(s, self.split_bool(v, other, s.facts)) else None)
            return outs
        if v.op == "discr":
            x, variants = v.a
            vmap = dict(variants)
            for _, y in alts(x):
                TM.VARS.setdefault(y, frozenset(n for _, n in variants))
            named = []
            for tv, _ in targets:
                name = vmap.get(tv)
                named.append(name)
                s = st.copy()
                if name is None:
                    outs.append(s)
                    continue
                ok_ = self.assume_any(s, self.split_variant(x, name, s.facts))
                if ok_ and x.op == "phi" and any(t_.op != "adt" for _, t_ in x.a[0]):
                    f = self.variant_fact(x, name)
                    s.facts = s.facts | {f}
                outs.append(s if ok_ else None)
            rest = [n for _, n in variants if n not in named]
            s = st
            gss = []
            for n in rest:
                gss += self.split_variant(x, n, s.facts)
            if not rest:
                outs.append(None)
            elif len(rest) == 1:
                ok_ = self.assume_any(s, gss)
                outs.append(s if ok_ else None)
            else:
                # several variants: only what is common, plus what is excluded
                ok_ = bool(gss) and self.assume_any(s, gss)
                if ok_ and x.op not in ("phi", "adt"):
                    for n in named:
                        if n:
                            s.facts = s.facts | {self.variant_fact(x, n, False)}
                outs.append(s if ok_ else None)
            return outs
        # integers / chars
        neg_ = []
        isint = v.op in ("int", "char")
        hit = False
        for tv, _ in targets:
            kc = mk("char", int(tv)) if t[4] == "char" else mk("int", self.sign(tv, t[4]))
            s = st.copy()
            if isint:
                same = str(v.a[0]) == str(kc.a[0])
                hit |= same
                outs.append(s if same else None)
                continue
            gss = []
            for g, x in alts(v):
                if not consistent(s.facts, g):
                    continue
                e = mkeq(x, kc)
                if e is FALSE:
                    continue
                gss.append(g if e is TRUE else g | {(e, True)})
            outs.append(s if self.assume_any(s, gss) else None)
            if v.op != "phi":
                neg_.append((mkeq(v, kc), False))
        s = st
        if isint:
            outs.append(None if hit else s)
        elif v.op == "phi":
            kcs = [str(mk("char", int(tv)).a[0]) if t[4] == "char" else self.sign(tv, t[4]) for tv, _ in targets]
            gss = [g for g, x in alts(v) if not (x.op in ("int", "char") and str(x.a[0]) in kcs)]
            outs.append(s if self.assume_any(s, gss) else None)
        else:
            outs.append(s if self.assume(s, [f for f in neg_]) else None)
        return outs

    def sign(self, tv, ty):
        m = re.match(r"i(\d+|size)$", ty)
        if m:
            bits = 64 if m.group(1) == "size" else int(m.group(1))
            x = int(tv)
            if x >= 1 << (bits - 1):
                x -= 1 << bits
            return str(x)
        return tv

    # ------------------------------------------------------------------ calls
    def do_call(self, fn, fr, b, st, t):
        self.calls_seen += 1
        fo = t[1]
        args = [self.operand(st, fr, o) for o in t[2]]
        ctx = Ctx(self, fn, fr, (b, self.un) if self.un else b, st, t[5], t[6])
        if fo[0] == "c" and fo[1][0] == "fn":
            return self.apply(ctx, fo[1][1], args)
        f = self.operand(st, fr, fo)
        return ctx.merge_now(ctx.invoke_alts(f, args))

    def apply(self, ctx, callee, args):
        path = strip_generics(callee["path"])
        name = callee["name"]
        if "ctor" in callee:
            adt, variant = callee["ctor"]
            if adt == "std::borrow::Cow":
                return args[0]
            return mk("adt", adt, variant, tuple(str(i) for i in range(len(args))), tuple(args))
        ctx.callee = callee
        tgt = self.prog.fns.get(callee.get("rid") or callee["id"])
        if tgt is not None and callee.get("rshim"):
            tgt = None
        if tgt is None and "rid" not in callee:
            tgt = self.prog.fns.get(callee["id"])
        if path in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call"):
            tgt = None      # its arguments come as one tuple
        ws = tgt is not None
        if self.hazards and not ws and self.hazards(path):
            vs = [self.val(ctx.st.mem, a) for a in args]
            ctx.event("hazard::" + path, name, vs, tuple(self.arrays.get(v, t) for v, t in zip(vs, ctx.aty)) + tuple(ctx.aty[len(vs):]), "hazard", args)
        if path in PANICS:
            ctx.event(path, name, args, None, "panic")
            raise Diverge()
        if ws and tgt.get("derived") or (ws and name in ("eq", "ne", "clone", "cmp", "partial_cmp") and tgt.get("derived")):
            m = self.model(path, name, callee)
            if m:
                return m(ctx, args)
        if ws:
            if name == "deref" and "lazy" in callee.get("path", "").lower():
                return args[0]
            if self.boundary(tgt):
                return self.opaque(ctx, tgt["npath"], name, args, "boundary")
            rec = sum(1 for f in self.stack if f is tgt)
            if rec or len(self.stack) >= self.maxdepth:
                if not rec:
                    self.notes.add("depth limit at " + tgt["path"])
                return self.opaque(ctx, tgt["npath"], name, args, "rec")
            return self.inline(ctx, tgt, args)
        m = self.model(path, name, callee)
        if m:
            return m(ctx, args)
        kind = "ext"
        if callee["path"].startswith("ic_") and "trait" in callee:
            kind = "dyn"
        return self.opaque(ctx, path, name, args, kind)

    def model(self, path, name, callee):
        m = self.models.get(path)
        if m:
            return m
        for pre, f in self.prefix_models:
            if f and re.match(pre, path):
                return f
        if path in IDENT_PATHS:
            return lambda ctx, a: ctx.ident(a)
        if name in IDENT and not path.startswith(("ic_", "std::io::")):
            return lambda ctx, a: ctx.ident(a)
        return None

    def inline(self, ctx, tgt, args):
        st = ctx.st
        fr0 = ctx.fr
        hasref = any(x.op == "ref" for a in args for x in subs(a)) or any(k[0] == "obj" for k in st.mem)
        if self.oracle is not None and self.oracle.splits(tgt):
            hasref = True
        if not hasref:
            key = (tgt["id"], tuple(args))
            hit = self.memo.get(key)
            if hit is not None:
                ret, facts, evs = hit
                self.again(st, walked(ret, facts, st.facts, chosen(args)), (ctx.fr, ctx.b, ctx.sub), True)
                chain = self.chain()
                for k, e in evs:
                    ne = Event(e.path, e.name, e.args, e.facts | st.facts, e.span, e.ret, chain + e.chain, e.kind, e.raw)
                    ne.frame = e.frame
                    self.events[(ctx.fr, ctx.b) + k] = ne
                if ret is None:
                    raise Diverge()
                if not consistent(st.facts, facts):
                    raise Diverge()
                st.facts = st.facts | facts
                return ret
            fr = self.frame(("m", tgt["id"], tuple(args)))
        else:
            fr = self.frame((fr0, ctx.b, ctx.sub, tgt["id"]))
        saved = self.events
        self.events = {}
        base = len(self.stack)
        try:
            given = chosen([self.val(st.mem, a) for a in args])
            out = self.exec_fn(tgt, args, fr, st.mem)
            evs = self.events
        finally:
            self.events = saved
        if out is not None:
            s2 = State(dict(out[2]), st.facts, st.pend)
            self.again(s2, walked(out[0], out[1], st.facts, given), (ctx.fr, ctx.b, ctx.sub), True)
            st.facts, st.pend, out = s2.facts, s2.pend, (out[0], out[1], s2.mem)
        for k, e in evs.items():
            ne = Event(e.path, e.name, e.args, e.facts | st.facts, e.span, e.ret, e.chain, e.kind, e.raw)
            ne.frame = e.frame
            self.events[(ctx.fr, ctx.b) + k] = ne
        if out is None:
            if not hasref:
                self.memo[(tgt["id"], tuple(args))] = (None, frozenset(), self.rebase(evs, base))
            raise Diverge()
        ret, facts, mem = out
        pure = not hasref and all(st.mem.get(k) is v for k, v in mem.items())
        if pure:
            self.memo[(tgt["id"], tuple(args))] = (ret, facts, self.rebase(evs, base))
        st.mem = mem
        if not consistent(st.facts, facts):
            raise Diverge()
        st.facts = st.facts | facts
        return ret

    def rebase(self, evs, base):
        r = []
        for k, e in evs.items():
            ne = Event(e.path, e.name, e.args, e.facts, e.span, e.ret, e.chain[base:], e.kind, e.raw)
            ne.frame = e.frame
            r.append((k, ne))
        return r

    def opaque(self, ctx, path, name, args, kind):
        st = ctx.st
        vals = tuple(self.val(st.mem, a) for a in args)
        # closures passed to code we do not see may run: their effects are joined in
        r = mk("call", path, vals)
        ctx.event(path, name, vals, r, kind, args)
        for i, a in enumerate(args):
            ty = ctx.aty[i] if i < len(ctx.aty) else ""
            if a.op == "ref" or ty.startswith("&mut "):
                self.write_ptr(st.mem, a, mk("mut", path, i, vals))
            elif a.op == "adt":
                self.written(st.mem, [a], r)
        return r

    def written(self, mem, args, r):
        """Code we do not see may write through the pointers it is given."""
        k = 0
        for a in args:
            for x in subs(a):
                if x.op == "ref":
                    self.write_ptr(mem, x, mk("mut", "apply", k, (r,)))
                    k += 1


def copied(v):
    """A list of all the elements of a sequence is that sequence."""
    if v.op == "list" and len(v.a[0]) == 1 and v.a[0][0][0] == "rep" and not v.a[0][0][2] and v.a[0][0][1].op == "elem":
        return v.a[0][0][1].a[0]
    return v


def chosen(args):
    """Sequences that arguments are chosen by having walked, and which are not themselves given."""
    by = {x.a[0].a[0] for a in args for x in t_all(a) if x.op == "is" and x.a[0].op == "next"}
    if not by:
        return by
    seen, todo = set(), list(args)
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            if x.op != "elem":
                todo += children(x)
    return by - seen


def walked(ret, facts, known, given):
    """Sequences a callee walks that are known to have been walked before."""
    old = {f[0].a[0].a[0] for f in known if f[0].op == "is" and f[0].a[0].op == "next"}
    for f in known:
        if f[0].op == "or":
            old |= {x.a[0].a[0] for x in condsubs(f[0]) if x.op == "is" and x.a[0].op == "next"}
    if not old:
        return []
    new = {f[0].a[0].a[0] for f in facts if f[0].op == "is" and f[0].a[0].op == "next"}
    if ret is not None:
        for g, _ in alts(ret):
            for d in dnf(g):
                new |= {f[0].a[0].a[0] for f in d if f[0].op == "is" and f[0].a[0].op == "next"}
    return sorted((old & new) - given, key=lambda q: q.n)


def narrowing(src, dst):
    def w(t):
        m = re.match(r"([iu])(\d+|size)$", t)
        if not m:
            return None
        return (m.group(1), 64 if m.group(2) == "size" else int(m.group(2)))
    if src == "char":
        return dst not in ("u32", "u64", "u128", "i64", "i128", "usize")
    if src == "bool":
        return False
    a, b = w(src), w(dst)
    if a is None or b is None:
        return True
    if a[0] == b[0]:
        return b[1] < a[1]
    if a[0] == "u":
        return b[1] <= a[1]
    return True


class Ctx:
    """One call site being modelled."""

    def __init__(self, eng, fn, fr, b, st, span, aty):
        self.eng, self.fn, self.fr, self.b, self.st, self.span, self.aty = eng, fn, fr, b, st, span, aty
        self.callee = None
        self.sub = 0

    def event(self, path, name, args, ret, kind, raw=None):
        e = Event(path, name, tuple(args), self.st.facts, self.span, ret, self.eng.chain(), kind, raw)
        self.eng.event(self.fr, (self.b, self.sub), e)

    def site(self):
        return (self.fr, self.b, self.sub)

    def val(self, a):
        return self.eng.val(self.st.mem, a)

    def ident(self, args):
        return args[0] if args else mk("call", "unit", ())

    def invoke(self, f, args, facts=frozenset(), read=True):
        """Calls a closure/fn value. Returns [(guards, value)]; memory effects are applied to self.st."""
        eng = self.eng
        if read:
            f = self.val(f)
        if f.op == "phi":
            out = []
            for g, x in f.a[0]:
                if consistent(self.st.facts, g):
                    out += [(g | g2, v) for g2, v in self.invoke(x, args, facts, read=x.op == "ref" or self.val(x).op != "phi")]
            return out
        self.sub += 1
        sub = Ctx(eng, self.fn, self.fr, self.b, self.st, self.span, ["" for _ in args])
        sub.sub = self.sub * 100
        saved = self.st.facts
        if facts:
            if not consistent(saved, facts):
                return []
            self.st.facts = saved | facts
        f0 = self.st.facts
        eng.active.append(tup(*[a for a in args]))
        oracle = eng.oracle
        if any(x.op == "elem" for a in args for x in subs(a)):
            eng.oracle = None
        try:
            if f.op == "clo":
                tgt = eng.prog.fns.get(f.a[0])
                if tgt is None:
                    r = mk("call", "closure", (f,) + tuple(args))
                    eng.written(self.st.mem, args, r)
                elif sum(1 for x in eng.stack if x is tgt) or len(eng.stack) >= eng.maxdepth:
                    r = mk("call", f.a[0], (f,) + tuple(args))
                    eng.written(self.st.mem, args, r)
                else:
                    r = eng.inline(sub, tgt, [f] + list(args))
            elif f.op == "fn":
                cal = json.loads(f.a[0])
                sub.callee = cal
                r = eng.apply(sub, cal, list(args))
            else:
                r = apply_nom(sub, f, self.val(args[0])) if len(args) == 1 else None
                if r is None:
                    r = mk("call", "apply", (f,) + tuple(self.val(a) for a in args))
                    self.event("apply", "apply", (f,) + tuple(self.val(a) for a in args), r, "apply")
                    eng.written(self.st.mem, args, r)
        except Diverge:
            self.st.facts = saved
            return []
        finally:
            eng.active.pop()
            eng.oracle = oracle
        extra = self.st.facts - f0
        self.st.facts = saved
        return [(g | extra | facts, t) for g, t in alts(r)]

    def invoke_alts(self, f, args):
        return self.invoke(f, args)

    def invoke_maybe(self, f, args, facts=frozenset()):
        """As invoke, but the call may also not happen: memory effects are joined with the state before."""
        before = self.st.mem
        self.st.mem = dict(before)
        al = self.invoke(f, args, facts)
        after = self.st.mem
        if after != before:
            d = facts
            self.st.mem = self.eng.join([State(before, frozenset()), State(after, frozenset(d))]).mem
        else:
            self.st.mem = before
        return al

    def merge_now(self, al):
        """The value of a call that certainly happens: common guards become facts."""
        if not al:
            raise Diverge()
        common = al[0][0]
        for g, _ in al[1:]:
            common = common & g
        if not consistent(self.st.facts, common):
            raise Diverge()
        self.st.facts = self.st.facts | common
        return mkphi([(g - common, t) for g, t in al])

    def expand(self, v, yes, no, payload="0"):
        """[(guards, variant or None, term)] of an Option/Result-like value."""
        out = []
        facts = self.st.facts
        for g, t in alts(v):
            if g and not consistent(facts, g):
                continue
            if t.op == "adt":
                out.append((g, t.a[1], t.a[3][0] if t.a[3] else None))
                continue
            fy = is_fact(t, yes)
            if not contradicts(facts, fy):
                out.append((g | {fy}, yes, self.payload(t, yes)))
            fn_ = is_fact(t, no)
            if not contradicts(facts, fn_):
                out.append((g | {fn_}, no, self.payload(t, no) if no == "Err" else None))
        return out

    def payload(self, t, variant):
        return self.eng.project(t, variant, "0", None)

    def opt(self, v):
        return self.expand(v, "Some", "None")

    def res(self, v):
        return self.expand(v, "Ok", "Err")


from models import build_models  # noqa: E402
from nom_models import apply_nom  # noqa: E402
