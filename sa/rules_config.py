"""Rules about what assets and configurations are taken to be (C43)."""

from fw import *
from rules_http import by_self
from rules_router import AC, bounds, conversions
from tabulate import Stuck, Unreadable, ev, holds

NO = lambda f: False
PATHS = ["", "/", "a", "/a", "a/", "//", "//a", "a/b", "/a/b", "./a", "?"]


def texts(t):
    """Text and characters as lists of characters."""
    def f(x):
        if x.op == "str":
            return mklist([it(mk("int", str(ord(ch)))) for ch in x.a[0]])
        if x.op == "char":
            return mk("int", str(x.a[0]))
        if x.op == "call" and last(x.a[0]) in ("starts_with", "ends_with", "concat"):
            return mk("call", x.a[0], tuple(mklist([it(y)]) if y.op == "int" else ones(y) for y in x.a[1]))
        return x
    return rewrite(t, f)


def ones(y):
    """A choice between pieces of text, some of which are characters."""
    return mkphi([(g, mklist([it(v)]) if v.op == "int" else v) for g, v in y.a[0]]) if y.op == "phi" else y


def url(c):
    c.rule("an asset is what it was made of", "Asset::new keeps the path and the content, and the URL is the path, behind a slash unless it starts with one")
    f = by_self(c, AC, "new", "Asset")
    TM.LV.clear()
    r = c.run(f, NO, names=["path", "content"])
    p = next((x for x in TM.t_all(r.ret) if x.op == "param" and show(x) == "$path"), None)
    bad, n = [], 0
    for g, t in alts(r.ret):
        c.ob("an asset is what it was made of", "path and content", t.op == "adt" and show(field(t, "path")) == "$path" and show(field(t, "content")) == "$content", f, show(t)[:300])
    for s in PATHS:
        want = s if s.startswith("/") else "/" + s
        env = {p: tuple(map(ord, s))}
        try:
            got = set()
            for g, t in alts(r.ret):
                if holds({(texts(k), v) for k, v in g}, env, {}):
                    got.add("".join(map(chr, ev(texts(field(t, "url")), env, {}))))
            if got != {want}:
                bad.append(f"{s!r} gets {sorted(got)}")
        except (Unreadable, Stuck, TypeError, AttributeError) as e:
            bad.append(f"{s!r}: {e}"[:200])
        n += 1
    c.ob("an asset is what it was made of", f"the URL ({n} kinds of paths)", not bad, f, "; ".join(bad)[:500])


def kept(c):
    c.rule("a configuration is what was configured", "preparing a configuration keeps its kind and every field, compiles the pattern as it is written, and fails only if that pattern cannot be compiled")
    fs = conversions(c)
    if len(fs) != 1:
        raise Anchor(f"TryFrom<AssetConfig> for NormalizedAssetConfig: found {len(fs)}")
    f = fs[0]
    TM.LV.clear()
    r = c.run(f, NO, names=["config"])
    seen = {}
    for g, t in alts(r.ret):
        for d in dnf(g | r.facts):
            t2 = under(specialize(t, d), d)
            F = set(fact_strs(d))
            kinds = [k for k in ("File", "Pattern", "Redirect") if f"$config is {k}" in F]
            if len(kinds) != 1:
                c.ob("a configuration is what was configured", "which kind it is is known", False, f, f"returns {show(t2)[:200]} where {sorted(F)[:4]}")
                continue
            k = kinds[0]
            glob = "Glob::new($config~Pattern.pattern)"
            if t2.op == "adt" and t2.a[1] == "Err":
                ok = k == "Pattern" and f"!{glob} is Ok" in F
                c.ob("a configuration is what was configured", f"{k}: fails only for a pattern that cannot be compiled", ok, f, f"{show(t2)[:200]} where {sorted(F)}")
                continue
            x = under(t2.a[3][0], d) if t2.op == "adt" and t2.a[1] == "Ok" else t2
            F -= {f"$config is {k}"} | ({f"{glob} is Ok"} if k == "Pattern" else set())
            c.ob("a configuration is what was configured", f"{k}: always", not F, f, f"only where {sorted(F)}"[:300])
            c.ob("a configuration is what was configured", f"{k}: kept as one", x.op == "adt" and x.a[1] == k, f, show(x)[:200])
            if x.op == "adt":
                seen.setdefault(k, []).append({n: show(under(v, d)) for n, v in zip(x.a[2], x.a[3])})
    want = {"File": ["path", "content_type", "headers", "fallback_for", "aliased_by", "encodings"],
            "Pattern": ["pattern", "content_type", "headers", "encodings"], "Redirect": ["from", "to", "kind"]}
    for k, names in want.items():
        c.ob("a configuration is what was configured", f"{k}: prepared", k in seen, f, "never returned")
        for got in seen.get(k, []):
            for n in names:
                w = f"$config~{k}.{n}"
                ws = {w} if n != "pattern" else {f"Glob::compile_matcher(Glob::new({w})~Ok.0)"}
                c.ob("a configuration is what was configured", f"{k}: {n}", got.get(n) in ws, f, f"is {got.get(n)}"[:300])


def every(c):
    c.rule("no configuration is passed over", "certify_assets and delete_assets prepare every configuration they are given before they change anything, and fail if one cannot be")
    ok = {"all(try_into(each($configs)) is Ok)", "all(converted(each($configs)) is Ok)"}
    for name in ("certify_assets", "delete_assets"):
        f = by_self(c, AC, name, "AssetRouter")
        TM.LV.clear()
        r = c.run(f, bounds(c), names=["self", "assets", "configs"])
        ids = "|".join(re.escape(last(x["path"])) for x in conversions(c))

        def plain_(d):
            return {re.sub(r"(?:[\w:<> ]*::)?(?:try_from|try_into)\(each\(\$configs\)\)", "try_into(each($configs))", x) for x in fact_strs(d)}
        es = [e for e in r.events if e.kind == "boundary" and last(e.path) in ("insert", "delete")]
        bad = [e for e in es if not ok & plain_(e.facts)]
        c.ob("no configuration is passed over", f"{name}: all are prepared before anything is certified or deleted", es and not bad, f,
             f"{last(bad[0].path)} at {bad[0].span}" if bad else "nothing is certified or deleted")
        n = 0
        for k, v in r.exits("Ok"):
            for d in dnf(k):
                n += 1
                c.ob("no configuration is passed over", f"{name}: it succeeds only when all are prepared", bool(ok & plain_(d)), f, f"succeeds where {sorted(x[:80] for x in plain_(d))[:5]}"[:500])
        c.count("no configuration is passed over", f"{name}: ways to succeed", n, 1)


def encodings(c):
    c.rule("an encoding has its own file extension", "the default extensions are .br, .zst, .gz, .zz and none, each for its encoding, and a custom one is the one given")
    want = {"Identity": "", "Brotli": ".br", "Zstd": ".zst", "Gzip": ".gz", "Deflate": ".zz"}
    f = by_self(c, AC, "default_config", "AssetEncoding")
    TM.LV.clear()
    r = c.run(f, NO, names=["self"])
    got = {}
    for g, t in alts(r.ret):
        for d in dnf(g | r.facts):
            t2 = specialize(t, d)
            if t2.op == "adt" and len(t2.a[3]) == 2:
                t2 = mk("tup", *t2.a[3])
            if t2.op != "tup" or len(t2.a) != 2:
                c.ob("an encoding has its own file extension", "a pair", False, f, show(t2)[:200])
                continue
            c.ob("an encoding has its own file extension", "the encoding itself", all(show(under(x, g2)) == "$self" or show(x) in want and f"$self is {show(x)}" in set(fact_strs(d | g2)) or re.fullmatch(r"(\w+::)*\w+", show(x)) and f"$self is {last(show(x))}" in set(fact_strs(d | g2))
                     for g2, x in alts(t2.a[0])), f, show(t2.a[0])[:200])
            for g2, x in alts(t2.a[1]):
                for d2 in dnf(d | g2):
                    ks = [k for k in want if f"$self is {k}" in set(fact_strs(d2))]
                    for k in ks or ["?"]:
                        got.setdefault(k, set()).add("" if x is TM.EMPTY else x.a[0] if x.op == "str" else show(x))
    c.ob("an encoding has its own file extension", "the table", got == {k: {v} for k, v in want.items()}, f, str(got)[:400])
    f = by_self(c, AC, "custom_config", "AssetEncoding")
    TM.LV.clear()
    r = c.run(f, NO, names=["self", "extension"])
    c.ob("an encoding has its own file extension", "custom", show(r.ret) == "($self, $extension)", f, show(r.ret)[:200])


def c43(c):
    url(c)
    kept(c)
    encodings(c)
    every(c)


RULES = {"C43": c43}
