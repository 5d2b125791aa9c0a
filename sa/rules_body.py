"""Rules about undoing a response's content encoding."""

import re

from fw import *
import rules_verify as rv


def read_whole(r, t, d, streams):
    """None where t is everything that one of the streams over $body yields, or what is wrong with it."""
    def stream(s):
        return s.op == "call" and last(s.a[0]) == "new" and show(s.a[1][0]) == "$body" and s.a[0].split("::")[-2] in streams

    if t.op == "mut" and last(t.a[0]) in ("read_to_end", "copy"):
        # the library reads to the end
        src = t.a[2][0]
        if not stream(src):
            return f"the bytes are read from {show(src)[:120]}"
        if not any(v and k.op == "is" and k.a[1] == "Ok" and last(k.a[0].a[0]) == last(t.a[0]) for k, v in d if k.op == "is" and k.a[0].op == "call"):
            return "the outcome of reading is not looked at"
        return None
    if not (t.op == "call" and t.a[0] == "concat_all"):
        return f"the result is {show(t)[:200]}"
    xs = t.a[1][0]
    parts = [(x, g) for _, x, g in xs.a[0] if x is not EMPTY] if xs.op == "list" else []
    if len(parts) != 1:
        return f"the result is {show(t)[:200]}"
    part, guard = parts[0]
    m = re.fullmatch(r"iter\(take\((.*)\)@0\)", show(part))   # the first n elements, one by one
    kept = m.group(1) if m else None
    reads = [x for x in t_all(t) if x.op == "call" and last(x.a[0]) == "read" and len(x.a[1]) == 2]
    for lv in list(t_all(t)):
        for w in r.lv.get(lv, ()):
            reads += [x for x in t_all(w) if x.op == "call" and last(x.a[0]) == "read" and len(x.a[1]) == 2 and x not in reads]
    if not reads:
        return "nothing is read"
    for rd in reads:
        dec, buf = rd.a[1]
        for x in r.lv.get(dec, (dec,)):
            if not (stream(x) or x.op == "mut" and x.a[1] == 0 and any(x.a[2] == q.a[1] for q in reads)):
                return f"the stream read from is {show(x)[:200]}"
        for x in r.lv.get(buf, (buf,)):
            if x.op == "repeat" and show(x.a[1]) == "0":
                return "the buffer read into is empty"
    # what a read leaves: how much it read, and the buffer that it filled; the same reads for both, also where a loop carries them
    outs = [(mk("fld", q, "Ok", "0"), mk("mut", q.a[0], 1, q.a[1])) for q in reads]
    carried = {}
    for lv, ways in r.lv.items():
        for k in (0, 1):
            hit = [i for w in ways for i, o in enumerate(outs) if o[k] is w]
            if len(hit) == len(ways):
                carried.setdefault((k, tuple(sorted(hit))), []).append(lv)
    pairs = list(outs) + [(n, b) for (k, hit), ns in carried.items() if k == 0 for n in ns for b in carried.get((1, hit), ())]
    f = fact_strs(d)
    why = "not everything that was read is kept: " + show(part)[:300]
    for n, b in pairs:
        n, b = show(n), show(b)
        if show(part) not in {f"slice({b}, {x})" for x in (f"Range(start: 0, end: {n})", f"RangeTo(end: {n})")} and kept != f"{b}, {n}":
            continue
        guards = {f"!eq(0, {n})", f"lt(0, {n})", f"!lt({n}, 1)"} | {f"{show(q)} is Ok" for q in reads}
        extra = [x for g in dnf(guard) for x in fact_strs(g) - guards]
        if extra:
            why = "what was read is kept only if " + "; ".join(sorted(extra))[:300]
        elif not f & {f"eq(0, {n})", f"!lt(0, {n})", f"lt({n}, 1)"}:
            why = "reading ends before the stream says that nothing is left: " + "; ".join(sorted(f))[:300]
        else:
            return None
    return why


def c32(c):
    c.rule("decoding", "a declared gzip or deflate body is decoded to its end, every other body is taken as it is, and a body that "
                       "cannot be decoded is an error")
    dec = rv.decoders(c)
    if not dec:
        raise Anchor("no function of the verifier takes a body and a content encoding")
    c.count("decoding", "functions that undo a content encoding", len(dec), 1, None)
    for f in dec:
        flip = "Option" in f["locals"][1][0]
        body = mk("param", "", "body", 1)
        e = mk("param", "", "e", 2)
        cases = [("no encoding", TM.NONE, None), ("gzip", TM.some(mk("str", "gzip")), ("MultiGzDecoder",)),
                 ("deflate", TM.some(mk("str", "deflate")), ("DeflateDecoder",)), ("any other encoding", TM.some(e), None)]
        for what, enc, streams in cases:
            TM.LV.clear()
            r = c.run(f, args=[enc, body] if flip else [body, enc])
            r.lv = dict(TM.LV)
            n = 0
            bad = set()
            for k, t in r.exits(None):
                for d in dnf(k):
                    fs = fact_strs(d)
                    if fs & {"eq($e, 'gzip')", "eq($e, 'deflate')"} or any("!" + x in fs for x in fs):
                        continue
                    n += 1
                    v = t.a[1] if t.op == "adt" else None
                    x = t.a[3][0] if v in ("Ok", "Err") else None
                    if v == "Err":
                        if streams is None:
                            bad.add(f"refused where {sorted(fs)[:4]}")
                        elif not any(not val and q.op == "is" and q.a[1] == "Ok" and q.a[0].op == "call" and
                                     last(q.a[0].a[0]) in ("read", "read_to_end", "copy") for q, val in d):
                            bad.add(f"refused though reading did not fail: {sorted(fs)[:4]}"[:400])
                    elif v != "Ok":
                        bad.add(f"the result is {show(t)[:200]}")
                    elif streams is None:
                        if show(x) != "$body":
                            bad.add(f"the body becomes {show(x)[:300]}")
                    else:
                        w = read_whole(r, x, d, streams)
                        if w:
                            bad.add(w)
            c.ob("decoding", f"{what}: {'every byte the decoder yields' if streams else 'the body as it is'}", n > 0 and not bad, f, "; ".join(sorted(bad))[:900] or "no way out found")


RULES = {"C32": c32}
