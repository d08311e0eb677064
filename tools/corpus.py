#!/usr/bin/env python3
"""The corpus of derived types: descriptors, and what is generated from them.

A type is described once, here. From the description come
  corpus/src/lib.rs       the annotated Rust types (input of the derive macros),
  harness/derive/src/gen.rs   the same descriptions as data for the oracle,
  contracts/gen_*.rs      the contracts on the code the macros generate.
The contracts follow the *documented meaning* of the annotations; nothing of
the generated code is copied into them.
"""
import copy, os, random, re, sys, json

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCALARS = ["String", "bool", "i32", "u64", "f64", "Tracked"]


class Restriction:
    kind = "restriction"

    def __init__(self, name, variants, ws="preserve", unknown=None, unknown_first=False):
        # variants: identifier, or (identifier, text)
        self.name, self.ws, self.unknown, self.unknown_first = name, ws, unknown, unknown_first
        self.variants = [(v, v.removeprefix("r#")) if isinstance(v, str) else v for v in variants]
        self.renamed = [not isinstance(v, str) for v in variants]


class Union:
    kind = "union"

    def __init__(self, name, variants, ws="preserve"):
        self.name, self.ws, self.variants = name, ws, variants  # (ident, type)


class Std:
    """mode = "std": FromStr / Display of the type (hand-written in lib.rs)."""
    kind = "std"

    def __init__(self, name, ws="preserve"):
        self.name, self.ws = name, ws


class F:
    """A field. mode: 'e'lement, 'a'ttribute, 'f'latten."""

    def __init__(self, ident, ty, mode="e", rename=None, prefix=None, default=False):
        self.ident, self.ty, self.mode, self.rename, self.prefix, self.default = ident, ty, mode, rename, prefix, default


class V:
    def __init__(self, ident, ty=None, rename=None, prefix=None, skip=False):
        self.ident, self.ty, self.rename, self.prefix, self.skip = ident, ty, rename, prefix, skip


class Element:
    """Common to structs and enums."""

    def __init__(self, name, members, rename=None, prefix=None, namespaces=(), default_namespace=None, has_default=False):
        self.name, self.members, self.rename, self.prefix, self.has_default = name, members, rename, prefix, has_default
        self.namespaces, self.default_namespace = list(namespaces), default_namespace

    def ns_table(self):
        t = dict(self.namespaces)
        if self.default_namespace is not None:
            t[""] = self.default_namespace
        return dict(sorted(t.items()))

    def uri(self, prefix):
        if prefix is None:
            return ""
        t = self.ns_table()
        if prefix in t:
            return t[prefix]
        return "http://www.w3.org/XML/1998/namespace" if prefix == "xml" else ""

    def root_name(self):
        return (self.uri(self.prefix), self.rename or self.name)

    def name_of(self, m):
        return (self.uri(m.prefix), m.rename or m.ident.removeprefix("r#"))


class Struct(Element):
    kind = "struct"

    def own(self, mode):
        return [f for f in self.members if f.mode == mode]


class Enum(Element):
    kind = "enum"

    def live(self):
        return [v for v in self.members if not v.skip]


def Opt(t):
    return f"Option<{t}>"


def Vec(t):
    return f"Vec<{t}>"


NS = [("a", "urn:a"), ("b", "urn:b")]

TYPES = [
    # ------------------------------------------------------------- text enums
    Restriction("Color", ["Red", ("Green", "green"), ("Blue", "blue ish")]),
    Restriction("Size", [("Small", "small"), ("Large", "extra large"), "Medium"], ws="collapse", unknown="Other"),
    Restriction("Code", [("Ab", "a b"), ("A", "a"), ("Empty", "")], ws="replace", unknown="Unknown"),
    Restriction("Keep", [("Pad", " pad "), ("Pad2", "pad"), "PAD"], unknown="Rest"),
    Restriction("Tight", ["One", ("Two", "two words")], ws="collapse"),
    Restriction("Vowel", [("A", "a"), ("E", "e"), ("Ea", "ea"), ("Hidden", "é\t")], ws="replace"),
    Std("Pair", ws="collapse"),
    Std("Word"),
    Union("ColorOrNum", [("Col", "Color"), ("Num", "i32"), ("Flag", "bool")]),
    Union("Loose", [("Num", "u64"), ("Neg", "i32"), ("Sz", "Size")], ws="collapse"),
    Union("TwoTexts", [("T", "Tight"), ("V", "Vowel"), ("P", "Pair")], ws="replace"),
    Union("Nested", [("Inner", "ColorOrNum"), ("Real", "f64"), ("Any", "String")]),
    Union("Early", [("Flag", "bool"), ("Text", "String"), ("Num", "i32")]),
    Union("Front", [("Text", "String"), ("Sz", "Size")], ws="collapse"),
    Union("Alone", [("Only", "u64")], ws="replace"),
    Union("TwoRest", [("Kept", "Keep"), ("Rep", "Code"), ("Num", "f64")]),
    Restriction("Ahead", [("P", "plus"), ("M", "minus sign"), "r#true"], ws="collapse", unknown="Else", unknown_first=True),
    Restriction("Foreign", [("Kurz", "kürzer"), ("Gross", "Größe"), ("Nihon", "日本 語"), ("Kana", "かな\u00a0")], ws="collapse"),
    Std("Line", ws="replace"),
    Union("Strings", [("First", "Keep"), ("Second", "String")], ws="collapse"),
    # --------------------------------------------------------------- elements
    Struct("Plain", [
        F("one", "String"), F("two", Opt("i32")), F("three", Vec("String")),
        F("attr", "String", "a"), F("attr_opt", Opt("i32"), "a"),
    ]),
    Struct("Empty", []),
    Struct("Big", [
        F("a", "i32"), F("b", "String"), F("c", Vec("i32")), F("d", "Tracked"), F("e", Opt("String"), "a"), F("f", Opt("u64"), "a"),
    ], has_default=True),
    Struct("Defaults", [
        F("z", "i32", default=True), F("y", Vec("Tracked"), default=True), F("x", "Tracked", "a", default=True),
        F("w", "Tracked", default=True), F("v", Opt("Tracked"), "a"),
        F("big", "Big", default=True), F("u", Opt("Big"), default=True), F("t", "bool", "a", default=True),
    ]),
    Struct("Spaced", [
        F("x", "String", prefix="a"), F("x2", "String", rename="x", prefix="b"), F("x3", Opt("String"), rename="x"),
        F("p", "i32", "a", prefix="b"), F("p2", Opt("i32"), "a", rename="p"), F("q", Opt("String"), "a", prefix="xml", rename="lang"),
    ], rename="spaced-out", prefix="a", namespaces=NS),
    Struct("Defaulted", [
        F("a", "String", prefix=""), F("ab", Vec("i32"), prefix=""), F("b", "Color", "a"),
        F("a2", Opt("Color"), "a", rename="a"), F("c", Opt("i32"), "a", prefix=""), F("c2", Opt("i32"), "a", rename="c"),
    ], rename="d", prefix="", default_namespace="urn:d"),
    Struct("Near", [
        F("ab", "i32"), F("a", "i32"), F("abc", Opt("i32")), F("aB", Opt("i32")), F("b", Vec("i32")), F("a_", Opt("i32")),
    ]),
    Enum("Shape", [V("Circle", "i32"), V("Square", "Plain"), V("Dot"), V("Line", Vec("String"))]),
    Enum("Tone", [V("Zeta", "Color"), V("Alpha", Opt("Tracked")), V("Mid"), V("Other", Vec("Tracked"), rename="beta")]),
    Enum("Marked", [V("Yes", "i32", prefix="a"), V("No", prefix="b", rename="Yes"), V("Maybe", "Tight")],
         rename="marked", prefix="b", namespaces=NS),
    Enum("Single", [V("Only", Vec("i32"))]),
    Enum("Blank", [V("Nothing")], rename="blank"),
    Enum("Mixed", [
        V("Zed", "i32", prefix="a"), V("Lost", "Plain", skip=True, prefix="b", rename="Zed"), V("Name", "String", prefix=""),
        V("Zed2", Opt("Tight"), rename="Zed", prefix="b"), V("r#type", prefix="a"), V("Bare", Vec("Color"), prefix=""),
    ], prefix="", namespaces=NS, default_namespace="urn:d"),
    Enum("Guarded", [V("Hidden", "String", skip=True), V("Seen", "String"), V("Gone", skip=True), V("Flag")]),
    Struct("One", [F("head", "String"), F("shape", "Shape", "f")]),
    Struct("TwoFlat", [
        F("shape", "Shape", "f"), F("id", "Tracked", "a"), F("tone", "Tone", "f"), F("tail", Vec("Tracked")),
    ]),
    Struct("Overlap", [
        F("Dot", Opt("Empty")), F("first", "Shape", "f"), F("second", "Shape", "f"), F("mark", "Marked", "f"),
        F("note", Opt("String"), "a", prefix="n"),
    ], namespaces=[("n", "urn:n")]),
    Struct("Bare", [F("k", "i32"), F("m", "Marked", "f")]),
    Struct("Trio", [
        F("single", "Single", "f"), F("Flag", Opt("i32")), F("g", "Guarded", "f"), F("n", "Blank", "f"), F("only", "i32", "a", rename="Only"),
    ]),
    Struct("Words", [
        F("r#type", "String"), F("r#match", Opt("i32"), "a"), F("kana", Opt("Foreign"), rename="かな"), F("e", Opt("i32"), "a", rename="é"),
        F("r#in", Vec("Ahead"), rename="in-put"), F("_under", Opt("Early")), F("Upper", Opt("Front"), rename="UPPER.case"),
    ]),
    Struct("Wide", [
        F("m", "i32"), F("zz", Vec("u64")), F("a10", Opt("i32")), F("b", Opt("Line")), F("a2", Opt("Tracked")),
        F("n", "i32", "a"), F("l", Opt("String"), "a"), F("h", Opt("TwoRest"), "a"),
    ]),
    Struct("Guard", [F("before", "i32"), F("g", "Guarded"), F("after", Opt("Guarded"))]),
    Struct("GuardFlat", [F("before", Opt("i32")), F("g", "Guarded", "f")]),
    Struct("Deep", [
        F("plain", "Plain"), F("list", Vec("One")), F("choice", Opt("Shape")), F("many", Vec("Tone")),
        F("text", "ColorOrNum"), F("t2", Opt("Loose"), "a"), F("sp", Opt("Spaced"), prefix="s", rename="spaced-out"),
    ], namespaces=[("s", "urn:a")]),
    Enum("Tree", [V("Leaf", "TwoFlat"), V("Branch", Vec("Deep")), V("Nil")]),
]


# ------------------------------------------------------------------ Rust types
def attr(items):
    return f"#[static_xml({', '.join(items)})]\n" if items else ""


def q(s):
    return json.dumps(s, ensure_ascii=False)


def member_attr(m):
    a = []
    if getattr(m, "mode", None) == "a":
        a.append("attribute")
    if getattr(m, "mode", None) == "f":
        a.append("flatten")
    if getattr(m, "default", False):
        a.append("default")
    if getattr(m, "skip", False):
        a.append("skip")
    if m.rename is not None:
        a.append(f"rename = {q(m.rename)}")
    if m.prefix is not None:
        a.append(f"prefix = {q(m.prefix)}")
    return attr(a)


def element_attr(t):
    a = []
    # the prefix comes before the namespaces it refers to: the order does not matter
    if t.prefix is not None:
        a.append(f"prefix = {q(t.prefix)}")
    if t.rename is not None:
        a.append(f"rename = {q(t.rename)}")
    if t.default_namespace is not None:
        a.append(f"default_namespace = {q(t.default_namespace)}")
    for p, u in t.namespaces:
        a.append(f"namespace = {q(p + ': ' + u)}")
    return attr(a)


def rust_type(t, derives="Debug, PartialEq"):
    if "::" in t.name:
        m, n = t.name.split("::")
        u = copy.copy(t)
        u.name = n
        return f"pub mod {m} {{\n    use super::*;\n" + "".join("    " + l + "\n" for l in rust_type(u, derives).splitlines()) + "}\n"
    out = ""
    d = (derives + ", " if derives else "")
    if t.kind in ("restriction", "union"):
        out += f"#[derive({d}ParseText, ToText)]\n"
        a = [f'mode = "{t.kind}"']
        if t.ws != "preserve":
            a.append(f'whitespace = "{t.ws}"')
        out += attr(a) + f"pub enum {t.name} {{\n"
        if t.kind == "union":
            for v, ty in t.variants:
                out += f"    {v}({ty}),\n"
        else:
            unknown = f"    #[static_xml(unknown)]\n    {t.unknown}(String),\n" if t.unknown else ""
            if t.unknown_first:
                out, unknown = out + unknown, ""
            for (v, text), r in zip(t.variants, t.renamed):
                if r:
                    out += "    " + attr([f"rename = {q(text)}"])
                out += f"    {v},\n"
            out += unknown
        return out + "}\n"
    if t.kind == "std":
        a = ['mode = "std"'] + ([f'whitespace = "{t.ws}"'] if t.ws != "preserve" else [])
        return out + f"#[derive({d}ParseText, ToText)]\n{attr(a)}pub struct {t.name}(pub String, pub String);\n"
    out += f"#[derive({d}{'Default, ' if t.has_default else ''}Deserialize, Serialize)]\n#[allow(non_snake_case)]\n" + element_attr(t)
    if t.kind == "struct":
        out += f"pub struct {t.name} {{\n"
        for f in t.members:
            out += "    " + member_attr(f).replace("\n", "\n    ") + f"pub {f.ident}: {f.ty},\n"
    else:
        out += f"pub enum {t.name} {{\n"
        for v in t.members:
            out += "    " + member_attr(v).replace("\n", "\n    ") + v.ident + (f"({v.ty})" if v.ty else "") + ",\n"
    return out + "}\n"


LIB_HEAD = '''// Written by tools/corpus.py. Types that use the derive macros.
#![allow(dead_code)]
use static_xml_derive::{Deserialize, ParseText, Serialize, ToText};

mod base;
pub use base::*;

'''


def lib_rs(types, extra=""):
    out = LIB_HEAD
    for t in types:
        out += rust_type(t) + "\n"
    return out + extra


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)



# --------------------------------------------------------- data for the oracle
def parse_ty(t):
    for w in ("Option", "Vec"):
        if t.startswith(w + "<"):
            return (w, t[len(w) + 1:-1])
    return (None, t)


def rs_ty(t):
    w, inner = parse_ty(t)
    base = f'Ty::Scalar("{inner}")' if inner in SCALARS else f'Ty::Named("{inner}")'
    return {"Option": f"Ty::Opt(Box::new({base}))", "Vec": f"Ty::Many(Box::new({base}))", None: base}[w]


def wide_rs(n=300):
    """Types with many names, for the bounded search only: tables of any size are looked up rightly."""
    names = [f"n{(i * 7919) % 1009}" for i in range(n)]
    ns = ["", "a", "b"]
    # the same local name in several namespaces, and names that sort next to each other
    use = [(ns[i % 3], names[i - i % 5 % 3]) for i in range(n)]
    seen, decl = set(), []
    for i, (p, m) in enumerate(use):
        if (p, m) in seen:
            m += "x"
        seen.add((p, m))
        decl.append((p, m))
    o = ["// Written by tools/corpus.py.", "use static_xml_derive::{Deserialize, Serialize};", ""]
    o.append(f"pub const NAMES: [(&str, &str); {n}] = [")
    o += [f'    ("{"urn:" + p if p else ""}", "{m}"),' for p, m in decl]
    o.append("];")
    head = '#[static_xml(namespace = "a: urn:a", namespace = "b: urn:b")]'
    o += ["#[derive(Deserialize, Serialize)]", head, "pub struct Wide {"]
    for i, (p, m) in enumerate(decl):
        pre = f', prefix = "{p}"' if p else ""
        o.append(f'    #[static_xml(attribute, rename = "{m}"{pre})]\n    pub a{i}: Option<u32>,')
        o.append(f'    #[static_xml(rename = "{m}"{pre})]\n    pub e{i}: Option<u32>,')
    o.append("}")
    o += ["#[derive(Deserialize, Serialize)]", head, "pub enum Choice {"]
    for i, (p, m) in enumerate(decl):
        pre = f', prefix = "{p}"' if p else ""
        o.append(f'    #[static_xml(rename = "{m}"{pre})]\n    V{i}(u32),')
    o.append("}")
    o += ["pub fn wide(w: &Wide) -> (Vec<Option<u32>>, Vec<Option<u32>>) {"]
    o.append("    (vec![" + ", ".join(f"w.a{i}" for i in range(n)) + "],")
    o.append("     vec![" + ", ".join(f"w.e{i}" for i in range(n)) + "])")
    o.append("}")
    o += ["pub fn choice(c: &Choice) -> (usize, u32) {", "    match c {"]
    o += [f"        Choice::V{i}(x) => ({i}, *x)," for i in range(n)]
    o += ["    }", "}"]
    return "\n".join(o) + "\n"


# --------------------------------------------- more declarations, for the search only
TEXTS = ["", "x", "X", " x", "a b", "a  b", "é", "\u00a0", "true", "0", "1", "-1", "plus", "minus sign", "zz", "NaN", "日本 語", "a\tb", "&<>\"'", "]]>", "r#x", "x y z", "none", "b"]
LOCALS = ["a", "ab", "abc", "b", "B", "a_b", "a-b", "é", "かな", "_u", "UPPER.case", "x", "x1", "x10", "x2", "type", "lang", "z", "Z", "value", "id", "name", "m", "n", "o", "p"]
RAWS = ["r#type", "r#match", "r#fn", "r#in", "r#use"]
PREFIXES = [("p", "urn:p"), ("q", "urn:q"), ("pp", "urn:p"), ("r", "urn:r:"), ("s", "urn:p/"), ("t", "URN:p")]


KEYWORDS = set("as break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await abstract become box do final macro override priv typeof unsized virtual yield try gen".split())


def usable(words):
    """(texts, names, identifiers, URIs) made of words found in the code under test."""
    texts, names, idents, uris = [], [], [], []
    for w in words:
        if not w or len(w) > 60 or any(ord(c) < 32 and c not in "\t\n" or ord(c) > 0xffff for c in w):
            continue
        texts += [w, w + "x"]
        for p in re.split(r"[^A-Za-z0-9_.-]", w) + [w]:
            for n in (p, "a" + p, p + "a"):
                if re.fullmatch(r"[A-Za-z_][A-Za-z0-9_.-]*", n) and not n.lower().startswith("xml"):
                    names.append(n)
                    if re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", n) and n not in KEYWORDS and n.strip("_"):
                        idents.append(n)
        if re.fullmatch(r"[A-Za-z0-9:/#?._~=+%@!$,;*-]+", w):
            uris += [u for u in (w, "urn:x" + w, w + "x") if ":" in u and "XML/1998/namespace" not in u and "2000/xmlns" not in u and ": " not in u]
    return [list(dict.fromkeys(x))[:12] for x in (texts, names, idents, uris)]


PREFIX_URIS = ["urn:1", "urn:2", "urn:3", "urn:4"]


def extra_types(seed=11, words=(), numbers=()):
    """Random declarations. A prefix means the same namespace everywhere and there is no default
    namespace: the two recorded findings on xml-rs's writer (C10) are about those."""
    r = random.Random(seed)
    texts, enums, elements, out = ["Color", "Pair"], ["Shape"], ["Plain"], []
    new_texts, new_names, new_idents, new_uris = usable(words)
    TEXTS_, LOCALS_ = TEXTS + new_texts, LOCALS + 3 * new_names
    PREFIXES_ = PREFIXES + [(n, u) for n, u in zip([x for x in new_names if "." not in x] + [f"u{i}" for i in range(20)], new_uris + PREFIX_URIS) if n not in dict(PREFIXES)][:max(4, len(new_uris)) if words else 0]
    SCALARS_ = SCALARS + [w for w in words if w in SCALARS] * 6

    def wrap(t, k):
        return r.choice([t, t, Opt(t), Vec(t)][:k])

    def ident(used, pool):
        while True:
            i = r.choice(pool)
            if i.removeprefix("r#") not in used:
                used.add(i.removeprefix("r#"))
                return i

    weight = {"Plain": 5, "Shape": 5}

    def nest(ty):
        """Not too much of what must be there."""
        if weight.get(ty, 0) > 12:
            return r.choice([Opt(ty), Vec(ty)])
        return wrap(ty, 4)

    def weigh(ms):
        return 1 + sum(weight.get(m.ty, 1) for m in ms if m.ty and "<" not in m.ty)

    def naming(used, idents, ns, pool=LOCALS_, attr=False):
        """ident, rename, prefix with a name not yet in `used`"""
        table = dict(ns)
        for _ in range(300):
            i = r.choice(idents)
            rename = r.choice(pool) if r.random() < .4 else None
            prefix = r.choice(list(table)) if table and r.random() < .5 else "xml" if attr and r.random() < .05 else "" if r.random() < .05 else None
            uri = table.get(prefix, "XML" if prefix == "xml" else "")
            name = (uri, rename or i.removeprefix("r#"))
            if name not in used:
                used.add(name)
                return i, rename, prefix
        raise SystemExit("no name left")

    def some_ns():
        return r.sample(PREFIXES_, r.choice([0, 0, 1, 2, 3]))

    def head(ns):
        return dict(rename=r.choice(LOCALS_) if r.random() < .4 else None,
                    prefix=r.choice([p for p, _ in ns]) if ns and r.random() < .6 else None, namespaces=ns)

    for k in range(12):
        vs, used = [], set()
        n = r.choice([1, 2, 3, 5, 9])
        for j, t in enumerate(r.sample(TEXTS_, n)):
            vs.append((f"V{j}", t) if r.random() < .8 else f"V{j}")
        u = "Unknown" if r.random() < .4 else None
        out.append(Restriction(f"XR{k}", vs, ws=r.choice(list(WS)), unknown=u, unknown_first=bool(u) and r.random() < .5))
        texts.append(f"XR{k}")
    out.append(Restriction("XRWide", [(f"V{j}", f"t{j * 7919 % 1009}") for j in range(270)], ws="collapse", unknown="Rest"))
    texts.append("XRWide")
    for k in range(8):
        n = r.choice([1, 2, 3, 4, 6])
        out.append(Union(f"XU{k}", [(f"V{j}", r.choice(texts + SCALARS_)) for j in range(n)], ws=r.choice(list(WS))))
        texts.append(f"XU{k}")
    # each variant the only one, or the first of two, to take some text
    for j in range(24):
        out.append(Restriction(f"XRU{j}", [("A", f"u{j}"), ("B", f"u{j + 1}"), ("C", f"u {j}")], ws=["preserve", "collapse"][j % 2]))
    out.append(Union("XUWide", [(f"V{j}", f"XRU{j}") for j in range(24)] + [("Num", "i32"), ("Last", "Word")], ws="collapse"))
    texts.append("XUWide")

    def members(name, n, attrs, elems, flats, wide=False):
        ns = some_ns()
        used_i, used_e, used_a, ms = set(), set(), set(), []
        idents = [f"f{j}" for j in range(n)] if wide else ["a", "b", "c", "ab", "x", "x1", "x10", "x2", "id", "value", "name", "lang", "z", "Upper", "_v", "zz_top", "visitor", "present", "out"] + RAWS + 3 * new_idents
        for _ in range(n):
            left = [i for i in idents if i.removeprefix("r#") not in used_i]
            kind = r.choice("a" * attrs + "e" * elems + "f" * flats)
            if kind == "f":
                i = left[0]
                ms.append(F(i, r.choice(enums), "f"))
            elif kind == "a":
                i, ren, pre = naming(used_a, left[:1] if wide else left, ns, attr=True)
                ty = r.choice(SCALARS_ + texts)
                ty = r.choice([ty, Opt(ty), Opt(ty)])
                d = r.random() < .25 and (ty in SCALARS_ or ty.startswith("Opt"))
                ms.append(F(i, ty, "a", rename=ren, prefix=pre, default=d))
            else:
                i, ren, pre = naming(used_e, left[:1] if wide else left, ns)
                ty = nest(r.choice(SCALARS_ + texts + 3 * elements[-8:]) if not wide else r.choice(SCALARS_))
                if not wide and r.random() < .05:
                    ty = Vec(name)
                d = r.random() < .25 and (ty in SCALARS_ or ty[:4] in ("Opti", "Vec<"))
                ms.append(F(i, ty, rename=ren, prefix=pre, default=d))
            used_i.add(i.removeprefix("r#"))
        return ns, ms

    for k in range(34):
        if k % 3 == 2:
            ns, used, ms = some_ns(), set(), []
            n = r.choice([1, 2, 3, 4, 7])
            for j in range(n):
                i, ren, pre = naming(used, [f"V{j}"], ns)
                ty = None if r.random() < .25 else nest(r.choice(SCALARS_ + texts + elements[-8:]))
                ms.append(V(i, ty, rename=ren, prefix=pre, skip=j > 0 and r.random() < .15))
            if n > 2:
                r.shuffle(ms)
            out.append(Enum(f"XE{k}", ms, **head(ns)))
            enums.append(f"XE{k}")
            elements.append(f"XE{k}")
            weight[f"XE{k}"] = 1 + max([weight.get(m.ty, 1) for m in ms if m.ty], default=0)
        else:
            ns, ms = members(f"XS{k}", r.choice([0, 1, 2, 3, 4, 5, 6, 8]), 2, 4, 1)
            out.append(Struct(f"XS{k}", ms, **head(ns)))
            elements.append(f"XS{k}")
            weight[f"XS{k}"] = weigh(ms)
    ns, ms = members("XSWide", 70, 1, 1, 0, wide=True)
    out.append(Struct("XSWide", ms, namespaces=ns))
    # 280 optional fields, 280 variants: more than a byte counts
    out.append(Struct("XSHuge", [F(f"f{j}", Opt("i32"), "a" if j % 2 else "e", rename=f"n{j * 7919 % 1009}") for j in range(560)]))
    out.append(Enum("XEHuge", [V(f"V{j}", "i32" if j % 2 else None, rename=f"n{j * 7919 % 1009}") for j in range(280)]))
    # one member of each kind and type, alone
    kinds = SCALARS + ["Color", "Size", "ColorOrNum", "Pair"]
    for k, ty in enumerate(kinds):
        for j, (t, mode, d) in enumerate([(ty, "a", 0), (Opt(ty), "a", 0), (ty, "e", 0), (Opt(ty), "e", 0), (Vec(ty), "e", 0)]
                                         + ([(ty, "a", 1), (ty, "e", 1)] if ty in SCALARS else [])):
            out.append(Struct(f"XO{k}_{j}", [F("only", t, mode, default=bool(d))], namespaces=r.sample(PREFIXES_, k % 3)))
    for k, ty in enumerate(["i32", "Color", "Plain", "Empty", "Single", None]):
        for j, t in enumerate([ty, Opt(ty), Vec(ty)] if ty else [None]):
            out.append(Enum(f"XV{k}_{j}", [V("Only", t)], namespaces=r.sample(PREFIXES_, j)))
            out.append(Struct(f"XW{k}_{j}", [F("it", f"XV{k}_{j}", "f")], namespaces=r.sample(PREFIXES_, 2 + j % 2)))
    # types of one name
    out.append(Restriction("alpha::XT", [("X", "x"), ("Both", "both"), ("Z", "z z")]))
    out.append(Restriction("beta::XT", [("Y", "y"), ("Both", "both"), ("Z2", "z  z")], ws="collapse"))
    out.append(Union("XUSame", [("A", "alpha::XT"), ("B", "beta::XT"), ("N", "i32")]))
    out.append(Union("XUSame2", [("B", "beta::XT"), ("A", "alpha::XT")], ws="collapse"))
    out.append(Struct("XSSame", [F("a", "beta::XT"), F("b", Opt("alpha::XT")), F("c", "alpha::XT", "a"), F("d", Opt("beta::XT"), "a")]))
    # sizes the code knows about
    for n in sorted({m for n in numbers for m in (n - 1, n, n + 1, n + 2) if 0 < m <= 260})[:24]:
        nm = [f"n{j * 7919 % 1009}" for j in range(n)]
        out.append(Struct(f"XN{n}", [F(f"f{j}", Opt("i32"), "a" if j % 2 else "e", rename=x) for j, x in enumerate(nm)]))
        out.append(Enum(f"XNE{n}", [V(f"V{j}", "i32" if j % 2 else None, rename=x) for j, x in enumerate(nm)]))
        out.append(Restriction(f"XNR{n}", [(f"V{j}", x) for j, x in enumerate(nm)], ws="collapse"))
        if n <= 40:
            out.append(Struct(f"XNF{n}", [F(f"f{j}", Opt("i32"), rename=x) for j, x in enumerate(nm[1:])] + [F("last", "Shape", "f")]))
            out.append(Union(f"XNU{n}", [(f"V{j}", f"XRU{j % 24}") for j in range(n - 1)] + [("Num", "i32")]))
            ns = [(f"p{j}", f"urn:n{j}") for j in range(n)]
            out.append(Struct(f"XNP{n}", [F(f"f{j}", Opt("i32"), "a" if j % 2 else "e", rename=x, prefix=f"p{(j + 1) % n}") for j, x in enumerate(nm)], namespaces=ns))
    return out


def extra_rs(types):
    o = "// Written by tools/corpus.py: declarations for the bounded search only.\n#![allow(dead_code)]\nuse corpus::*;\nuse static_xml_derive::{Deserialize, ParseText, Serialize, ToText};\n\n"
    return o + "\n".join(rust_type(t) for t in types)


def gen_rs(types):
    o = "// Written by tools/corpus.py: the corpus as data.\n#![allow(unused)]\nuse crate::extra::*;\nuse crate::model::*;\nuse corpus::*;\n\n"
    for t in types:
        n = t.name
        if t.kind == "restriction":
            vs = "".join(f"            {n}::{v} => Val::choice({q(v)}, None),\n" for v, _ in t.variants)
            fs = "".join(f"            {q(v)} => {n}::{v},\n" for v, _ in t.variants)
            if t.unknown:
                vs += f"            {n}::{t.unknown}(s) => Val::choice({q(t.unknown)}, Some(s.to_v())),\n"
                fs += f"            {q(t.unknown)} => {n}::{t.unknown}(Model::from_v(p.unwrap())),\n"
        elif t.kind == "union":
            vs = "".join(f"            {n}::{v}(x) => Val::choice({q(v)}, Some(x.to_v())),\n" for v, _ in t.variants)
            fs = "".join(f"            {q(v)} => {n}::{v}(Model::from_v(p.unwrap())),\n" for v, _ in t.variants)
        elif t.kind == "std":
            o += f"impl Model for {n} {{\n    fn to_v(&self) -> Val {{ Val::Scalar(self.to_string()) }}\n    fn from_v(v: &Val) -> Self {{ v.scalar().parse().unwrap() }}\n}}\n"
            continue
        elif t.kind == "struct":
            vs = ", ".join(f"self.{f.ident}.to_v()" for f in t.members)
            fs = ", ".join(f"{f.ident}: Model::from_v(&f[{i}])" for i, f in enumerate(t.members))
            o += f"impl Model for {n} {{\n    fn to_v(&self) -> Val {{ Val::Fields(vec![{vs}]) }}\n    fn from_v(v: &Val) -> Self {{ let f = v.fields(); {n} {{ {fs} }} }}\n}}\n"
            continue
        else:
            vs = "".join(f"            {n}::{v.ident}" + ("(x)" if v.ty else "") + f" => Val::choice({q(v.ident)}, " + ("Some(x.to_v())" if v.ty else "None") + "),\n" for v in t.members)
            fs = "".join(f"            {q(v.ident)} => {n}::{v.ident}" + ("(Model::from_v(p.unwrap()))" if v.ty else "") + ",\n" for v in t.members)
        o += f"impl Model for {n} {{\n    fn to_v(&self) -> Val {{\n        match self {{\n{vs}        }}\n    }}\n    fn from_v(v: &Val) -> Self {{\n        let (c, p) = v.chosen();\n        match c {{\n{fs}            _ => unreachable!(),\n        }}\n    }}\n}}\n"
    o += "\npub fn defs() -> Vec<(&'static str, Def)> {\n    vec![\n"
    for t in types:
        o += f"        ({q(t.name)}, "
        if t.kind == "restriction":
            vs = ", ".join(f"({q(v)}, {q(x)})" for v, x in t.variants)
            o += f"Def::Restriction {{ ws: {q(t.ws)}, variants: vec![{vs}], unknown: {'Some(' + q(t.unknown) + ')' if t.unknown else 'None'} }}"
        elif t.kind == "union":
            vs = ", ".join(f"({q(v)}, {rs_ty(x)})" for v, x in t.variants)
            o += f"Def::Union {{ ws: {q(t.ws)}, variants: vec![{vs}] }}"
        elif t.kind == "std":
            o += f"Def::Std {{ ws: {q(t.ws)} }}"
        else:
            ns = ", ".join(f"({q(p)}, {q(u)})" for p, u in t.ns_table().items())
            root = "({}, {})".format(*map(q, t.root_name()))
            ms = ""
            for m in t.members:
                nm = "({}, {})".format(*map(q, t.name_of(m)))
                if t.kind == "struct":
                    ms += f"            Field {{ ident: {q(m.ident)}, name: {nm}, ty: {rs_ty(m.ty)}, mode: '{m.mode}', default: {str(m.default).lower()} }},\n"
                else:
                    ms += f"            Variant {{ ident: {q(m.ident)}, name: {nm}, ty: {'Some(' + rs_ty(m.ty) + ')' if m.ty else 'None'}, skip: {str(m.skip).lower()} }},\n"
            k, f = ("Struct", "fields") if t.kind == "struct" else ("Enum", "variants")
            o += f"Def::{k} {{ root: {root}, namespaces: vec![{ns}], {f}: vec![\n{ms}        ] }}"
        o += "),\n"
    o += "    ]\n}\n\npub fn ops() -> Vec<(&'static str, Ops)> {\n    vec![\n"
    for t in types:
        f = "text_ops" if t.kind in ("restriction", "union", "std") else "element_ops"
        o += f"        ({q(t.name)}, {f}::<{t.name}>()),\n"
    return o + "    ]\n}\n"


# ------------------------------------------------------- contracts on text derives
DTEXT_HEAD = '''// Written by tools/corpus.py. Contracts on the code that #[derive(ParseText, ToText)]
// generates for the text types of the corpus (corpus/src/lib.rs).
use vstd::prelude::*;
use vstd::utf8::*;

verus! {

//@source ex @expanded.rs
//@call ::std::convert::AsRef::<str>::as_ref vx_as_ref
//@call ::std::convert::AsRef::as_ref vx_as_ref
//@call ::std::string::ToString::to_string vx_display
//@call ::std::str::FromStr::from_str vx_from_str
//@include scalars_body.rs
//@include derive_paths.rs
#[verifier::external_body]
pub fn vx_as_ref(s: &String) -> (r: &str)
    ensures r@ == s@
{ unimplemented!() }

//@item de enum WhiteSpace derive=Copy+Clone+PartialEq+Eq+Structural needs=PartialEq
//@include normal_model.rs
/// The contract proved in unit c01.
#[verifier::external_body]
pub fn normalize(s: String, whitespace: WhiteSpace) -> (r: String)
    ensures r@ == normalized(s@, whitespace)
{ unimplemented!() }
//@fn de no_such_variant props=C15
//@end
#[verifier::external_body]
pub fn union_error(union_type: &str, errors: Vec<BoxedStdError>) -> (r: BoxedStdError) { unimplemented!() }

/// Parsing `text` as a `T` fails.
pub open spec fn rejects<T: ParseText>(text: Seq<char>) -> bool { exists|e: BoxedStdError| T::parses(text, Err(e)) }

'''


def strlits(texts, ind="    "):
    return "".join(f"{ind}reveal_strlit({q(t)});\n" for t in texts)


def distinct(texts, ind="    "):
    """Asserts that tell the texts apart."""
    o = strlits(texts, ind)
    for i, a in enumerate(texts):
        for b in texts[:i]:
            if len(a) != len(b):
                o += f"{ind}assert({q(a)}@.len() != {q(b)}@.len());\n"
            else:
                k = [x != y for x, y in zip(a, b)].index(True)
                o += f"{ind}assert({q(a)}@[{k}] != {q(b)}@[{k}]);\n"
    return o


WS = {"preserve": "WhiteSpace::Preserve", "replace": "WhiteSpace::Replace", "collapse": "WhiteSpace::Collapse"}


def dtext_rs(types):
    o = DTEXT_HEAD
    for t in types:
        n = t.name
        ws = None
        if t.kind not in ("restriction", "union", "std"):
            continue
        ws = WS[t.ws]
        o += f"// ------------------------------------------------------------------- {n}\n"
        if t.kind == "std":
            o += f"pub struct {n}(pub String, pub String);\n"
            parses = f"        let t = normalized(text, {ws});\n        match r {{ Ok(v) => std_parse::<{n}>(t) == Some(v), Err(_) => std_parse::<{n}>(t) is None }}\n"
            prints = f"        r matches Ok(s) && s@ == std_print::<{n}>(*self)\n"
        elif t.kind == "restriction":
            o += f"pub enum {n} {{ " + ", ".join([v for v, _ in t.variants] + ([f"{t.unknown}(String)"] if t.unknown else [])) + " }\n"
            texts = [x for _, x in t.variants]
            arms = "".join(f"            Ok({n}::{v}) => t == {q(x)}@,\n" for v, x in t.variants)
            none = " && ".join(f"t != {q(x)}@" for x in texts)
            if t.unknown:
                arms += f"            Ok({n}::{t.unknown}(s)) => s@ == t && {none},\n            Err(_) => false,\n"
            else:
                arms += f"            Err(_) => {none},\n"
            parses = f"        let t = normalized(text, {ws});\n        match r {{\n{arms}        }}\n"
            arms = "".join(f"            {n}::{v} => s@ == {q(x)}@,\n" for v, x in t.variants)
            if t.unknown:
                arms += f"            {n}::{t.unknown}(x) => s@ == x@,\n"
            prints = f"        r matches Ok(s) && match *self {{\n{arms}        }}\n"
        else:
            o += f"pub enum {n} {{ " + ", ".join(f"{v}({ty})" for v, ty in t.variants) + " }\n"
            arms, before = "", []
            for v, ty in t.variants:
                arms += f"            Ok({n}::{v}(v)) => " + "".join(b + " && " for b in before) + f"{ty}::parses(t, Ok(v)),\n"
                before.append(f"rejects::<{ty}>(t)")
            arms += "            Err(_) => " + " && ".join(before) + ",\n"
            parses = f"        let t = normalized(text, {ws});\n        match r {{\n{arms}        }}\n"
            prints = "        match *self {\n" + "".join(f"            {n}::{v}(v) => v.prints(r),\n" for v, _ in t.variants) + "        }\n"
        reveal = ""
        if t.kind == "restriction":
            reveal = "//@at start\n    broadcast use axiom_str_inj;\n    proof {\n" + distinct(texts, "        ") + "    }\n"
        o += f'//@impl ex "ParseText for {n}"\n    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {{\n{parses}    }}\n'
        o += f"//@fn ex parse props=C15 closures=1\n{reveal}//@end\n//@endimpl\n"
        o += f'//@impl ex "ToText for {n}"\n    open spec fn prints(&self, r: Result<String, Error>) -> bool {{\n{prints}    }}\n'
        o += f"//@fn ex to_text props=C15\n//@end\n//@endimpl\n"
        if t.kind == "restriction":
            same = "true"
            if t.unknown:
                same = f"(v matches {n}::{t.unknown}(a) ==> w->Ok_0->{t.unknown}_0@ == a@)"
            vs = "".join(f"        ((v matches {n}::{v}) <==> (w->Ok_0 matches {n}::{v})),\n" for v, _ in t.variants)
            o += f"""/// Whatever parsing produces prints, and what it prints parses to the same value, whatever the
/// implementations do within their contracts.
proof fn lemma_{n}_round_trip(text: Seq<char>, v: {n}, p: Result<String, Error>, w: Result<{n}, BoxedStdError>)
    requires
        {n}::parses(text, Ok(v)), v.prints(p),
        p is Ok ==> {n}::parses(p->Ok_0@, w),
    ensures //# C15
        p is Ok, w is Ok,
{vs}        {same},
{{
    lemma_normalized_twice(text, {ws});
{distinct(texts)}}}
"""
        o += "\n"
    return o + "} // verus!\nfn main() {}\n"



def unraw(types):
    """The types as the flattened expansion names them: r#x as vxr_x."""
    types = copy.deepcopy(types)
    for t in types:
        for m in getattr(t, "members", []):
            if m.ident.startswith("r#"):
                m.rename = m.rename or m.ident[2:]
                m.ident = "vxr_" + m.ident[2:]
    return types


EXTRA = extra_types()


def with_words(dst, words, numbers, seed):
    """The harness's declarations, with what the code under test names among them."""
    extra = extra_types(seed, words, numbers)
    write(os.path.join(dst, "gen.rs"), gen_rs(TYPES + extra))
    write(os.path.join(dst, "extra.rs"), extra_rs(extra))


if __name__ == "__main__":
    write(os.path.join(HERE, "corpus/src/lib.rs"), lib_rs(TYPES))
    write(os.path.join(HERE, "harness/derive/src/gen.rs"), gen_rs(TYPES + EXTRA))
    write(os.path.join(HERE, "harness/derive/src/extra.rs"), extra_rs(EXTRA))
    write(os.path.join(HERE, "harness/derive/src/wide.rs"), wide_rs())
    write(os.path.join(HERE, "contracts/dtext.rs"), dtext_rs(TYPES))
    sys.path.insert(0, os.path.join(HERE, "tools"))
    import gen_de
    write(os.path.join(HERE, "contracts/dde.rs"), gen_de.dde_rs(unraw(TYPES)))
    import gen_ser
    write(os.path.join(HERE, "contracts/dser.rs"), gen_ser.dser_rs(unraw(TYPES)))
