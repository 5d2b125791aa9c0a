"""Rules about the Candid form of requests and responses."""

from fw import *
import re
import terms as TM

HC = "ic_http_certification"
TEXT = {"std::string::String", "&str", "str", "std::borrow::Cow<str>"}
BLOB = {"std::borrow::Cow<[u8]>", "std::vec::Vec<u8>", "&[u8]", "serde_bytes::ByteBuf", "serde_bytes::Bytes"}
PAIRS = {"std::vec::Vec<(std::string::String, std::string::String)>", "&[(std::string::String, std::string::String)]"}
# field: (Rust types of that Candid type, kind of scalar when it is a type of the crate's own)
SCALAR = {"Text": TEXT, "Nat16": {"u16"}}
METHOD, STATUS = (TEXT, "Text"), ({"u16"}, "Nat16")
RECORDS = {
    "HttpRequest": {"method": METHOD, "url": (TEXT, None), "headers": (PAIRS, None), "body": (BLOB, None),
                    "certificate_version": ({"std::option::Option<u16>"}, None)},
    "HttpUpdateRequest": {"method": METHOD, "url": (TEXT, None), "headers": (PAIRS, None), "body": (BLOB, None)},
    "HttpResponse": {"status_code": STATUS, "headers": (PAIRS, None), "body": (BLOB, None),
                     "upgrade": ({"std::option::Option<bool>"}, None)},
    "HttpUpdateResponse": {"status_code": STATUS, "headers": (PAIRS, None), "body": (BLOB, None)},
}
PARSE = {"Text": r"(FromStr::from_str|Method::from_bytes|(TryFrom::)?try_from|(TryInto::)?try_into|(<impl str>|str)::parse)",
         "Nat16": r"(StatusCode::from_u16|(TryFrom::)?try_from|(TryInto::)?try_into)"}


def idl_hash(s):
    h = 0
    for b in s.encode():
        h = (h * 223 + b) % 2**32
    return h


def ty(s):
    return re.sub(r"'\w+,? ?", "", s)


def given(f):
    """The types whose Candid types f asks for, in the order of the calls."""
    return [ty(b["t"][1][1][1]["targs"][0]) for b in f["blocks"] if b["t"][0] == "call" and b["t"][1][0] == "c" and
            b["t"][1][1][0] == "fn" and re.search(r"CandidType::_?ty$", b["t"][1][1][1]["path"])]


def of(c, name, t, inner=""):
    """The functions of that name in the implementations for type t (of the visitor of t's deserializer)."""
    r = []
    for f in c.fns(HC, name):
        s = str(f.get("self"))
        if inner:
            ok = re.search(r"[ :]for [\w:]*\b" + t + r"(<[^>]*>)?>::deserialize::" + inner + r"\b", s)
        else:
            ok = re.search(r"(^|::)" + t + r"(<[^<>]*>)?$", s)
        if ok:
            r.append(f)
    if len(r) != 1:
        raise Anchor(f"{name} of {t}{inner}: {len(r)} functions")
    return r[0]


def show2(x):
    return re.sub(r"!0", "", show(x))


def scalars(c, rule, own):
    """own: type of the crate -> Text or Nat16"""
    for t, kind in sorted(own.items()):
        f = of(c, "_ty", t)
        ex = [show(x) for _, x in c.run(f).exits()]
        it = given(f)
        c.ob(rule, f"{t} has the Candid type {kind}", bool(ex) and all(
            re.fullmatch(rf"(Type\()?(TypeInner::)?{kind}\)?", x) or re.fullmatch(r"CandidType::_?ty\(\)", x) and len(it) == 1 and it[0] in SCALAR[kind]
            for x in ex), f, f"{ex} {it}"[:300])
        f = of(c, "idl_serialize", t)
        bad, n = "", 0
        for _, x in c.run(f, names=["self", "serializer"]).exits():
            n += 1
            w = show2(x)
            v = {"Text": r"\$self\.0", "Nat16": r"(?:(StatusCode::as_u16|from|From::from|into|Into::into)\(\$self\.0\)|\$self\.0)"}[kind]
            if not re.fullmatch(r"CandidType::idl_serialize\(" + v + r", \$serializer\)", w) and \
                    not re.fullmatch(r"Serializer::serialize_(text|nat16)\(\$serializer, " + v + r"\)", w):
                bad = w
        c.ob(rule, f"{t} is written as what it holds", n and not bad, f, bad[:400])
        f = of(c, "deserialize", t)
        D = "Deserialize::deserialize($deserializer)"
        good = re.compile(r"(" + PARSE[kind] + r"\(" + re.escape(D) + r"~Ok\.0\))")
        bad, n = "", {"Ok": 0, "Err": 0}
        for d, x in exits_dnf(c.run(f, names=["deserializer"]), None):
            for g, y in alts(specialize(x, d)):
                d2 = d | g
                facts = {show2(k): val for k, val in d2}
                while y.op == "adt" and len(y.a[3]) == 1 and y.a[1] == "Ok" and y.a[3][0].op == "adt" and len(y.a[3][0].a[3]) == 1:
                    y = mk("adt", y.a[0], "Ok", y.a[2], (y.a[3][0].a[3][0],))
                w = show2(y)
                m = re.fullmatch(r"Ok\(" + good.pattern + r"~Ok\.0\)", w)
                if m and facts.get(m.group(1) + " is Ok") is not False or \
                        w == f"Ok({D}~Ok.0)" and any(val and k.endswith(" is Ok") and good.fullmatch(k[:-6]) for k, val in facts.items()):
                    n["Ok"] += 1
                elif w.startswith("Err(") and any(val is False and k.endswith(" is Ok") and (k[:-6] == D or good.fullmatch(k[:-6]))
                                                  for k, val in facts.items()):
                    n["Err"] += 1
                else:
                    bad = w + " under " + ", ".join(f"{k}={val}" for k, val in sorted(facts.items()))
        c.ob(rule, f"{t} is read as what its text or number says, or refused", not bad and n["Ok"] and n["Err"], f, bad[:600] or str(n))


def written(d):
    """The values whose writing succeeded, in order."""
    r = []
    for k, val in d:
        if k.op == "is" and k.a[1] == "Ok" and val and show(k.a[0]).startswith("Compound::serialize_element("):
            r.append((len(show(k.a[0])), show(k.a[0].a[1][-1])))
    return [v for _, v in sorted(r)]


def c46(c):
    c.rule("types", "each type is the record of the interface's fields with their Candid types, in the order of the names' hashes")
    c.rule("write", "exactly the values of the fields are written, each once, in the order of the record")
    c.rule("read", "each field is read from the entry of its own name, whatever the order, and none is defaulted")
    c.rule("scalar", "a method is its text and a status its number, read as they say or refused")
    own = {}
    for t, fields in RECORDS.items():
        f = of(c, "_ty", t)
        want = sorted(fields, key=idl_hash)
        ex = [x for _, x in c.run(f).exits()]
        got = [re.findall(r"Label::Named\('([^']*)'\)", show(x)) for x in ex]
        c.ob("types", f"{t}: the names of the fields", bool(ex) and all(g == want and show(x).startswith("TypeInner::Record(") for g, x in zip(got, ex)),
             f, f"{got} instead of {want}")
        tys = given(f)
        for n, x in zip(want, tys + [""] * len(want)):
            okay, kind = fields[n]
            if kind and x not in okay and re.fullmatch(r"[\w:]+", x):
                own[x.split("::")[-1]] = kind
                continue
            c.ob("types", f"{t}.{n}: its type", x in okay, f, f"{x or 'none'} instead of one of {sorted(okay)}")
        c.ob("types", f"{t}: as many types as fields", len(tys) == len(want), f, str(tys))
        c.count("types", f"fields of {t}", len(tys), 1, f)
        f = of(c, "idl_serialize", t)
        n, bad = 0, ""
        for d, x in exits_dnf(c.run(f, names=["self", "s"]), None):
            if show(x).startswith("Err("):
                continue
            n += 1
            w = written(d)
            if w != ["$self." + k for k in want]:
                bad = f"{w} instead of {want}"
        c.ob("write", f"{t}: the values of its fields are written in order", n and not bad, f, bad[:600])
        read(c, t, fields)
    c.count("scalar", "types of their own", len(own), 2, HC)
    scalars(c, "scalar", own)


def read(c, t, fields):
    f = of(c, "visit_str", t, "__FieldVisitor")
    code, other = {}, set()
    for d, x in exits_dnf(c.run(f, names=["v", "name"]), None):
        m = re.fullmatch(r"Ok\((?:[\w:]*::)?(\w+)\)", show(x))
        eq = {m2.group(1) for k, val in d if val for m2 in [re.fullmatch(r"eq\((?:\$name, )?'(.*?)'(?:, \$name)?\)", show(k))] if m2}
        if not m or len(eq) > 1:
            other.add(show(x))
        elif eq:
            code.setdefault(eq.pop(), set()).add(m.group(1))
        else:
            other.add(m.group(1))
    ok = set(code) == set(fields) and all(len(v) == 1 for v in code.values()) and len(set.union(*code.values())) == len(fields) and \
        not other & set.union(*code.values()) and other == {"__ignore"}
    c.ob("read", f"{t}: the names under which fields are read", ok, f, f"{code}, others {other}")
    if not ok:
        return
    f = of(c, "deserialize", t)
    s = [show(x) for _, x in c.run(f, names=["d"]).exits()]
    m = [re.search(r"deserialize_struct\(\$d, '\w+', \[([^\]]*)\]", x) for x in s]
    c.ob("read", f"{t}: the fields asked for", bool(m) and all(x and {y.strip(" '") for y in x.group(1).split(",")} == set(fields) for x in m), f, str(s)[:300])
    f = of(c, "visit_map", t, "__Visitor")
    TM.LV.clear()
    r = c.run(f, names=["v", "map"])
    lvs = {show(k): v for k, v in TM.LV.items()}
    n = 0
    for d, x in r.exits():
        if x.op != "adt" or x.a[1] != "Ok":
            continue
        n += 1
        y = x.a[3][0]
        named = y.op == "adt" and not [k for k in y.a[2] if k not in fields] and len(y.a[2]) == len(fields)
        c.ob("read", f"{t}: every field is read", named, f, show(y)[:300])
        for k, v in zip(y.a[2], y.a[3]) if named else ():
            bad = ""
            for g, z in alts(v):
                w = show(z)
                m = re.fullmatch(r"(lv\(.*\))~Some\.0", w)
                if m and m.group(1) in lvs:
                    bad = bad or came(m.group(1), lvs[m.group(1)], next(iter(code[k])))
                elif w != f"de::missing_field('{k}')~Ok.0":
                    bad = w
            c.ob("read", f"{t}.{k} is the value of the entry of that name", not bad, f, bad[:600])
    c.count("read", f"records of {t} made", n, 1, f)


def came(name, vals, code):
    """How a variable gets another value than the one of the entry with that code ("" when it does not)."""
    n = 0
    for v in vals:
        for g, x in alts(v):
            w = show2(x)
            if w == name or w == "None" or w.endswith("::None"):
                continue
            if not re.fullmatch(r"Some\(MapAccess::next_value\(MapAccess::next_key\(lv\(.*\)\)\)~Ok\.0\)", w):
                return w
            if not any(val and k.op == "is" and k.a[1] == code and "MapAccess::next_key" in show(k.a[0]) for k, val in g):
                return w + " under " + ", ".join(("" if val else "!") + show(k) for k, val in g)
            n += 1
    return "" if n else "never set"


RULES = {"C46": c46}
