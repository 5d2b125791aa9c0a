"""Rules about Certificate::verify: time window, signature, delegation, signature cache."""

from fw import *

CV, IC, CB = "ic_certificate_verification", "ic_certification", "ic_cbor"
SEP = b"\x0dic-state-root".hex()
DER = "308182301d060d2b0601040182dc7c0503010201060c2b0601040182dc7c05030201036100"

BOUNDARY = (CB + ":from_cbor", IC + ":HashTree:lookup_path", IC + ":HashTree:digest", CB + ":parse_cbor_principals_array")
NAMES = ["cert", "canister_id", "root_key", "now", "offset"]

_v = {}


class P:
    """One success path of verify."""


def simp_phi(t):
    """Saturating arithmetic written out: phi<a op b if no overflow | limit if overflow>."""
    return t


def verify_paths(c):
    if "r" in _v:
        r = _v["r"]
        c.functions |= r.engine.analysed
        c.calls += r.engine.calls_seen
        c.exits += len(alts(r.ret))
        return r, _v["p"]
    fn = c.fn(CV, "verify")
    if fn["args"] != 5:
        raise Anchor("Certificate::verify takes the certificate and four arguments")
    b = c.bset(*BOUNDARY)
    r = c.run(fn, b, NAMES)
    paths, seen = [], set()
    D = None
    for d, _ in exits_dnf(r, "Ok"):
        for x in set().union(*[t_all(k) for k, _ in d]) if d else ():
            if x.op == "is" and show(x) == "$cert.delegation is Some":
                D = x
    for d, t in exits_dnf(r, "Ok"):
        for val in (True, False) if D is not None else (None,):
            d2 = d
            if val is not None:
                if (D, not val) in d:
                    continue
                d2 = d | {(D, val)}
            if not consistent(d2, frozenset()):
                continue
            d3 = frozenset((specialize(k, d2), v) for k, v in d2)
            vw = View()
            vw.norm = [flat_lookup]
            p = P()
            p.f = vw.facts(d3)
            if any("!" + x in p.f for x in p.f):
                continue
            p.d, p.v, p.deleg = d3, vw, val
            k = frozenset(p.f)
            if k not in seen:
                seen.add(k)
                paths.append(p)
    _v["r"], _v["p"] = r, paths
    return r, paths


def every(c, rule, fn, paths, label, pred, floor=1):
    bad = [p for p in paths if not pred(p)]
    c.count(rule, f"success paths ({label})", len(paths), floor, fn)
    c.ob(rule, label, not bad, fn, f"{len(bad)} of {len(paths)} success paths lack it; one of them requires only:\n    " +
         "\n    ".join(sorted(x[:400] for x in bad[0].f)) if bad else "")


# ---------------------------------------------------------------- linear inequalities
def lin(t, v):
    """{atom: coefficient, 1: constant} of an arithmetic term; None when not linear."""
    k = t.op
    if k == "int":
        return {1: int(t.a[0])}
    if k == "bin" and t.a[0] in ("Add", "Sub"):
        return comb(t.a[1], t.a[2], t.a[0], v)
    if k == "call":
        n = last(t.a[0])
        if n in ("saturating_add", "saturating_sub") and len(t.a[1]) == 2:
            return comb(t.a[1][0], t.a[1][1], "Add" if n.endswith("add") else "Sub", v)
    if k == "phi":
        # x if it fits, else the limit
        rest = [y for _, y in t.a[0] if not (y.op == "int" and (int(y.a[0]) == 0 or int(y.a[0]) >= 2**63 - 1))]
        if len(rest) == 1:
            return lin(rest[0], v)
    return {v.s(t): 1}


def comb(a, b, op, v):
    x, y = lin(a, v), lin(b, v)
    r = dict(x)
    for k, n in y.items():
        r[k] = r.get(k, 0) + (n if op == "Add" else -n)
    return {k: n for k, n in r.items() if n}


def ineq(t, val, v):
    """Linear forms (<= 0) a literal stands for."""
    def norm(r):
        return frozenset((k, n) for k, n in r.items() if n)
    if t.op == "bin" and t.a[0] == "Lt" or t.op == "lt":
        a, b = (t.a[1], t.a[2]) if t.op == "bin" else (t.a[0], t.a[1])
        for x, y in ((a, b),):
            ab = [z for z in (x, y) if z.op == "call" and last(z.a[0]) == "abs_diff"]
            if ab:
                # off < |p - q|  negated: |p - q| <= off
                if y is ab[0] and not val:
                    p, q = lin(y.a[1][0], v), lin(y.a[1][1], v)
                    o = lin(x, v)
                    return [norm(sub(sub(p, q), o)), norm(sub(sub(q, p), o))]
                return []
        x, y = lin(a, v), lin(b, v)
        if val:
            r = sub(x, y)
            r[1] = r.get(1, 0) + 1
        else:
            r = sub(y, x)
        return [norm(r)]
    return []


def sub(a, b):
    r = dict(a)
    for k, n in b.items():
        r[k] = r.get(k, 0) - n
    return {k: n for k, n in r.items() if n}


def forms(p):
    return {x for k, val in p.d for x in ineq(k, val, p.v)}


def c04(c):
    c.rule("time-window", "every success exit of verify requires now - offset <= time <= now + offset, the time read from the "
                          "certificate's own tree")
    r, paths = verify_paths(c)
    T = "read::unsigned(HashTree::lookup_path($cert.tree, ['time'])~Found.0)~Ok.0"
    up = frozenset([(T, 1), ("$now", -1), ("$offset", -1)])
    lo = frozenset([(T, -1), ("$now", 1), ("$offset", -1)])
    # no 128-bit time is later than a sum that does not fit, none is earlier than a difference below zero
    none = {frozenset([(T, -1)]), frozenset([(T, 1), (1, 1 - 2**128)]), frozenset([(T, 1), (1, 1 - 2**64)])}
    every(c, "time-window", r.fn, paths, "time <= now + offset", lambda p: up in forms(p) or
          {"!checked_add($now, $offset) is Some", "!checked_add($offset, $now) is Some"} & p.f)
    every(c, "time-window", r.fn, paths, "time >= now - offset", lambda p: lo in forms(p) or "!checked_sub($now, $offset) is Some" in p.f)
    every(c, "time-window", r.fn, paths, "no other limit on the time or the clock",
          lambda p: not any(any(k in (T, "$now", "$offset") for k, _ in f) for f in forms(p) - {up, lo} - none))
    every(c, "time-window", r.fn, paths, "the time is present and well encoded",
          lambda p: "HashTree::lookup_path($cert.tree, ['time']) is Found" in p.f and T[:-5] + " is Ok" in p.f)
    c.rule("time-arith", "the limits are computed without an operation that can overflow, underflow or wrap")
    wraps = sorted({show(x)[:200] for p in paths for k, _ in p.d for x in t_all(k)
                    if x.op == "ovf" or x.op == "call" and last(x.a[0]).startswith(("wrapping_", "overflowing_"))
                    for y in [show(x)] if "$now" in y or "$offset" in y})
    c.ob("time-arith", "now +- offset", not wraps, r.fn, "; ".join(wraps))


# ---------------------------------------------------------------- signatures
CERT2 = "ic_cbor::from_cbor($cert.delegation~Some.0.certificate)~Ok.0"
SUBKEY = f"HashTree::lookup_path({CERT2}.tree, ['subnet', $cert.delegation~Some.0.subnet_id, 'public_key'])~Found.0"
RANGES = f"HashTree::lookup_path({CERT2}.tree, ['subnet', $cert.delegation~Some.0.subnet_id, 'canister_ranges'])"


def msg_of(cert):
    return f"concat(b[{SEP}], HashTree::digest({cert}.tree))"


def pk_of(key):
    return f"slice({key}, RangeFrom(start: 37))"


def pk_ok(p, key):
    """The key is DER encoded as specified (length and prefix)."""
    pre = f"slice({key}, Range(start: 0, end: 37))"
    return f"eq(133, len({key}))" in p.f and f"eq(b[{DER}], {pre})" in p.f


def signed(c, p, cert, key):
    """Facts: the signature of cert over its root verifies under key, now or by an earlier verification."""
    sig, msg, pk = cert + ".signature", msg_of(cert), pk_of(key)
    if f"eq(0, bls::core_verify({sig}, {msg}, {pk}))" in p.f:
        return True
    for k, val in p.d:
        if val and k.op == "is" and k.a[1] == "Some" and k.a[0].op == "call" and last(k.a[0].a[0]) in GETS:
            parts = key_parts(p.v.t(k.a[0].a[1][1])) if len(k.a[0].a[1]) > 1 else None
            if parts is not None and covers(parts, sig, msg, pk):
                return True
    return False


GETS = ("cache_get", "get")
SETS = ("cache_set", "insert", "cache_get_or_set_with", "put", "push")


def key_parts(t):
    """The values a cache key is made of, in order, looking through hashing, structs and concatenation."""
    out = []

    def go(x):
        if x.op == "adt":
            for y in x.a[3]:
                go(y)
        elif x.op in ("tuple", "array"):
            for y in x.a[0]:
                go(y)
        elif x.op in ("concat",):
            for y in x.a[0]:
                go(y)
        elif x.op == "call" and last(x.a[0]) in ("sha256", "hash", "digest") and x.a[0].startswith("sha256"):
            for y in x.a[1]:
                go(y)
        elif x.op == "sha256":
            for y in x.a[0]:
                go(y)
        else:
            out.append(show(x))
    go(t)
    return out


def covers(parts, sig, msg, pk):
    m = msg[len("concat("):-1].split(", ", 1)
    return {sig, pk} | set(m) <= set(parts) and len(parts) == 4


def c03(c):
    c.rule("signature", "every success exit of verify requires that the BLS signature over the domain-separated root hash of "
                        "the certificate's own tree verifies (result 0) under the root key, or under the subnet key of a delegation")
    r, paths = verify_paths(c)
    plain_, dele = [p for p in paths if p.deleg is not True], [p for p in paths if p.deleg]
    every(c, "signature", r.fn, plain_, "without delegation: signed by the root key", lambda p: signed(c, p, "$cert", "$root_key"))
    every(c, "signature", r.fn, plain_, "without delegation: the root key is a DER encoded BLS key", lambda p: pk_ok(p, "$root_key"))
    every(c, "signature", r.fn, dele, "with delegation: signed by the delegated subnet's key", lambda p: signed(c, p, "$cert", SUBKEY))
    every(c, "signature", r.fn, dele, "with delegation: the subnet key is a DER encoded BLS key", lambda p: pk_ok(p, SUBKEY))


def c05(c):
    c.rule("delegation", "every success exit of verify with a delegation requires all of these of it")
    r, paths = verify_paths(c)
    dele = [p for p in paths if p.deleg]
    every(c, "delegation", r.fn, dele, "the delegation's certificate was parsed", lambda p: CERT2[:-5] + " is Ok" in p.f)
    every(c, "delegation", r.fn, dele, "the delegation's certificate carries no delegation itself",
          lambda p: f"!{CERT2}.delegation is Some" in p.f or f"{CERT2}.delegation is None" in p.f)
    every(c, "delegation", r.fn, dele, "the delegation's certificate is signed by the root key",
          lambda p: signed(c, p, CERT2, "$root_key") and pk_ok(p, "$root_key"))
    every(c, "delegation", r.fn, dele, "the subnet's canister ranges are in the delegation's tree", lambda p: RANGES + " is Found" in p.f)
    every(c, "delegation", r.fn, dele, "the subnet's key is in the delegation's tree", lambda p: SUBKEY[:-8] + " is Found" in p.f)
    rng = f"cbor_parser::parse_cbor_principals_array({RANGES}~Found.0)"
    every(c, "delegation", r.fn, dele, "the ranges are well encoded", lambda p: rng + " is Ok" in p.f)

    def within(p):
        """Some one range holds the canister."""
        los, his = set(), set()
        who = {"Principal::from_slice($canister_id)"} | {f"{f}($canister_id)~Ok.0" for f in (
            "Principal::try_from_slice", "try_from", "TryFrom::try_from", "try_into", "TryInto::try_into")}
        for k, val in p.d:
            if k.op == "lt" or k.op == "bin" and k.a[0] == "Lt":
                a, b = k.a[-2:]
                sa, sb = p.v.s(a), p.v.s(b)
                if val:
                    continue
                if sa in who and sb == f"each({rng}~Ok.0).0":
                    los.add(b.a[0])
                if sb in who and sa == f"each({rng}~Ok.0).1":
                    his.add(a.a[0])
        return bool(los & his)
    every(c, "delegation", r.fn, dele, "the canister id lies in one of the ranges, both ends included", within)


def c06(c):
    c.rule("cache-write", "a cache entry is written only behind a successful verification of exactly the key, signature and "
                          "message that the entry's key is made of")
    c.rule("cache-read", "a cache hit stands for verification only of the key, signature and message its key is made of")
    r, paths = verify_paths(c)
    n = 0
    for e in r.events:
        if e.name not in SETS or len(e.args) < 2 or "ache" not in show(e.args[0]):
            continue
        n += 1
        good, why = True, ""
        ds = dnf(e.facts)
        for d in ds:
            vw = View()
            vw.norm = [flat_lookup]
            key = vw.t(specialize(e.args[1], d))
            if not any(val and x.op == "eq" and verified(x, key, vw, d) for x, val in d):
                good, why = False, f"written key: {show(key)[:700]}\nunder: " + "; ".join(sorted(x[:300] for x in vw.facts(d)))[:1200]
                break
        c.ob("cache-write", f"write {n} of the cache", good and ds, e.span or r.fn, why)
    c.count("cache-write", "cache writes", n, 0, r.fn)
    hits = {x for p in paths for k, val in p.d if val and k.op == "is" and k.a[1] == "Some" and k.a[0].op == "call"
            and last(k.a[0].a[0]) in GETS and "ache" in show(k.a[0]) for x in [p.v.t(k.a[0])]}
    for i, h in enumerate(sorted(hits, key=show)):
        parts = key_parts(h.a[1][1]) if len(h.a[1]) > 1 else []
        whole = len(parts) == 4 and any(x.endswith(".signature") for x in parts) and f"b[{SEP}]" in parts
        c.ob("cache-read", f"hit {show(h)[-200:]}", whole, r.fn, f"key made of {parts}")
    # no other entry point writes to the cache
    w = [f for f in c.prog.fns.values() if f["crate"] == CV and f["reachable"] and f["id"] not in r.engine.analysed
         and any(k["name"] in ("cache_set", "cache_get_or_set_with", "cache_try_get_or_set_with") for k, _ in callees(f))]
    c.ob("cache-write", "no other entry point writes the cache", not w, w[0] if w else r.fn, str([f["path"] for f in w]))


def verified(x, key, vw, d):
    """x is core_verify(sig, msg, pk) == 0 for the parts key is made of."""
    if not any(z.op == "int" and int(z.a[0]) == 0 for z in x.a):
        return False
    for y in x.a:
        if y.op == "call" and last(y.a[0]) == "core_verify" and len(y.a[1]) == 3:
            sg, ms, pk = [vw.s(specialize(z, d)) for z in y.a[1]]
            return ms.startswith("concat(") and covers(key_parts(key), sg, ms, pk)
    return False


def why_refused(p):
    """The condition of acceptance that fails on an error path of verify; None when none does."""
    yes = {x for x in p.f if not x.startswith("!")}
    no = {x[1:] for x in p.f if x.startswith("!")} | {x[:-len(k)] + n for x in yes for k, n in (
        (" is Absent", " is Found"), (" is Unknown", " is Found"), (" is Error", " is Found"), (" is Err", " is Ok"), (" is None", " is Some")) if x.endswith(k)}
    T = "read::unsigned(HashTree::lookup_path($cert.tree, ['time'])~Found.0)~Ok.0"
    if {"HashTree::lookup_path($cert.tree, ['time']) is Found", T[:-5] + " is Ok"} & no:
        return "the certificate has no time, or not a well encoded one"
    fs = forms(p)
    if frozenset([("$now", 1), ("$offset", 1), (T, -1), (1, 1)]) in fs or frozenset([(T, 1), ("$now", -1), ("$offset", 1), (1, 1)]) in fs or \
            any(x in yes for x in (f"lt($offset, abs_diff({a}, {b}))" for a, b in (("$now", T), (T, "$now")))):
        return "the certificate's time is outside the window"
    if any(k == frozenset(f) for f in fs for k in (frozenset([(T, -1), (1, 2**128)]), frozenset([(T, -1), (1, 2**64)]), frozenset([(T, 1), (1, 1)]))):
        return "(a time no number holds)"
    rng = f"cbor_parser::parse_cbor_principals_array({RANGES}~Found.0)"

    def length(x, n):
        """x is known not to be n long."""
        x = f"len({x})"
        return f"eq({n}, {x})" in no or {f"lt({x}, {n})", f"lt({n}, {x})"} & yes or {f"lt({x}, {n + 1})", f"lt({n - 1}, {x})"} & no
    if p.deleg:
        if CERT2[:-5] + " is Ok" in no:
            return "the delegation's certificate cannot be read"
        if f"{CERT2}.delegation is Some" in yes or f"{CERT2}.delegation is None" in no:
            return "a delegation within the delegation"
        if {RANGES + " is Found", rng + " is Ok", SUBKEY[:-8] + " is Found"} & no:
            return "the delegation lacks readable ranges or the subnet's key"
        if any(x in no for x in (w[:-5] + " is Ok" for w in WHO if w.endswith("~Ok.0"))):
            return "the canister id is no principal"
        if any(val and k.op == "all" and outside(k.a[0], p.v, rng) for k, val in p.d):
            return "no range holds the canister"
    for cert, key in ([(CERT2, "$root_key"), ("$cert", SUBKEY)] if p.deleg else [("$cert", "$root_key")]):
        sig, pk = cert + ".signature", pk_of(key)
        if length(key, 133) or length(pk, 96) or f"eq(b[{DER}], slice({key}, Range(start: 0, end: 37)))" in no:
            return "the key is not a DER encoded BLS key"
        bits = [f"BitAnd({a}, {b})" for x in (sig, pk) for a, b in ((128, x + "[0]"), (x + "[0]", 128))]
        firsts = [x + "[0]" for x in (sig, pk)]
        tops = [f"Shr({x}, 7)" for x in firsts]
        if length(sig, 48) or any(f"eq(1, {b})" in no or f"eq(0, {b})" in yes or f"lt(0, {b})" in no for b in tops) or any(f"eq(0, {b})" in yes or f"eq(128, {b})" in no or f"eq({b}, 128)" in no for b in bits) or \
                any(f"lt({x}, 128)" in yes or f"lt(127, {x})" in no for x in firsts) or \
                {f"eq(0, len({x}))" for x in (sig, pk)} & yes or {f"lt(0, len({x}))" for x in (sig, pk)} & no:
            return "signature or key is not a compressed point"
        if f"eq(0, bls::core_verify({sig}, {msg_of(cert)}, {pk}))" in no:
            return "the signature is not one of the key over the tree"
    return None


WHO = ["Principal::from_slice($canister_id)"] + [f"{f}($canister_id)~Ok.0" for f in (
    "Principal::try_from_slice", "try_from", "TryFrom::try_from", "try_into", "TryInto::try_into")]


def outside(k, v, rng):
    """Condition k, of every range: the canister lies before its start or behind its end, and nothing else."""
    if k.op != "or":
        return False

    def side(s):
        return len(s) == 1 and all(val and c.op == "lt" and (v.s(c.a[0]), v.s(c.a[1])) in {
            x for w in WHO for x in ((w, f"each({rng}~Ok.0).0"), (f"each({rng}~Ok.0).1", w))} for c, val in s)
    return all(side(frozenset(x for x in s if x[0].op == "lt" and x[1]) or s) for s in k.a[0])


def c45(c):
    c.rule("refusals", "every error exit of verify lies behind the failure of a condition that acceptance needs, of the same values")
    fn = c.fn(CV, "verify")
    b = c.bset(*BOUNDARY)
    n, bad, seen = {}, [], set()
    for r in c.paths(fn, lambda f: f["crate"] == CV, b, NAMES):
        D = next((x for d, _ in r.exits() for k in d for x in t_all(k[0]) if x.op == "is" and show(x) == "$cert.delegation is Some"), None)
        for d, t, val in ((d, t, v) for d, t in exits_dnf(r, "Err") for v in ((True, False) if D is not None else (None,))):
            d2 = d if val is None else d | {(D, val)}
            if (D, not val) in d or not consistent(d2, frozenset()):
                continue
            p = P()
            p.d = frozenset((specialize(k, d2), v) for k, v in d2)
            p.v = View()
            p.v.norm = [flat_lookup]
            p.f = p.v.facts(p.d)
            p.deleg = val
            if any("!" + x in p.f for x in p.f) or frozenset(p.f) in seen:
                continue
            seen.add(frozenset(p.f))
            w = why_refused(p)
            n[w] = n.get(w, 0) + 1
            if w is None:
                bad.append((p, p.v.s(specialize(t, d2))))
    for w in sorted(x for x in n if x):
        c.count("refusals", f"error exits because: {w}", n[w], 1, fn)
    c.count("refusals", "error exits", sum(n.values()), 8, fn)
    det = ""
    if bad:
        p, s = min(bad, key=lambda x: len(x[0].f))
        det = f"{len(bad)} of {sum(n.values())} error exits are behind no failed condition; one gives {s[:200]} under:\n    " + \
            "\n    ".join(x[:400] for x in sorted(p.f))
    c.ob("refusals", "a certificate is refused only for a check it fails", not bad, fn, det)


RULES = {"C03": c03, "C04": c04, "C05": c05, "C06": c06, "C45": c45}
