#!/usr/bin/env python3
"""Writes sim/ver/src/versions.rs: the versions of the types C06's nodes hold.

Not run by the checks; the result is committed."""
import random, os

R = random.Random(20261120)
N = 6
LEAVES = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool", "char", "String",
          "F32", "F64", "()", "[u16; 3]", "(u8, String)", "(u32, i64, Vec<String>)", "Box<str>", "IpAddr", "Vec<u8>", "Vec<u32>",
          "Vec<String>", "BTreeMap<String, u64>", "BTreeMap<u32, String>", "Vec<Vec<u8>>", "Vec<Option<i32>>", "NonZeroU16", "Wrapping<i8>", "Box<u32>",
          "Range<u32>", "Result<u32, String>"]
STRUCTS = ["Addr", "Item", "Named", "Tup", "Late", "Odd"]
ENUMS = ["Kind", "Job", "Adj", "Color", "Word"]


def name_of(i):
    return ["k%d", "key-%d", "na\u00efve %d", "quo\\\"te%d", "sl\\\\ash/%d", "K%d", "\\u{{1F600}}%d".replace("{{", "{").replace("}}", "}"), "%d"][i % 8] % i


class Field:
    def __init__(self, fid, ty):
        self.id, self.ty = fid, ty
        self.kinds = []  # per version: None, must, dflt, seven, skip
        self.bytes = False


def history(ty, first):
    """The life of a field through the versions."""
    opt = ty.startswith("Option<")
    soft = ["dflt"] + (["skip", "skip"] if opt else []) + (["seven"] if ty == "u32" else [])
    k = []
    if first:
        k = ["must"] * N
        if R.random() < 0.15:
            k[-1] = "dflt"
        return k
    mode = R.choice(["added", "added", "removed", "blink", "late-must", "soft", "random"])
    at = R.randrange(1, N)
    for v in range(N):
        s = R.choice(soft)
        if mode == "added":
            k.append(None if v < at else s)
        elif mode == "removed":
            k.append(s if v < at else None)
        elif mode == "blink":
            k.append(s if (v + at) % 2 else None)
        elif mode == "late-must":
            k.append(None if v < at - 1 else s if v < at + 1 else "must")
        elif mode == "soft":
            k.append(s)
        else:
            k.append(R.choice([None, s]))
    return k


def composite(depth, allow):
    c = R.random()
    base = R.choice(allow) if R.random() < 0.6 else R.choice([l for l in LEAVES if l != "Result<u32, String>"])
    base = {"Word": "Word"}.get(base, base)
    if c < 0.3:
        return base
    if c < 0.5:
        return f"Vec<{base}>"
    if c < 0.75:
        return f"Option<{base}>" if not base.startswith("Option") else base
    if c < 0.9:
        return f"BTreeMap<String, {base}>"
    return f"Box<{base}>" if not base.startswith("Box") else base


def fields(n, allow, firsts):
    out = []
    ids = R.sample(range(0, 40), n) if n < 20 else R.sample(range(0, 300), n)
    for j, i in enumerate(ids):
        ty = composite(0, allow) if allow and R.random() < 0.6 else R.choice(LEAVES)
        if R.random() < 0.25 and not ty.startswith("Option"):
            ty = f"Option<{ty}>"
        f = Field(i, ty)
        f.kinds = history(ty, j < firsts)
        # without a value of its own there is no default
        if any(w in ty for w in ["NonZero", "IpAddr", "Range", "Result"]) and not ty.startswith(("Option", "Vec", "BTreeMap")):
            f.kinds = ["must"] * N if j < firsts else [None if k is None else "must" for k in f.kinds]
        if ty.split("<")[0] in STRUCTS + ENUMS or ty.startswith("Box<") and ty[4:-1] in STRUCTS + ENUMS:
            # versions have their own default only where every field has one
            f.kinds = [None if k is None else "must" for k in f.kinds]
            if not j < firsts:
                f.ty = f"Option<{f.ty}>"
                f.kinds = history(f.ty, False)
        f.bytes = ty == "Vec<u8>" and R.random() < 0.5
        out.append(f)
    return out


STR = "#[musli(name(type = str))]"
WRAP = {"u32": "TrU32", "String": "TrStr"}


def member(f, v, style, order):
    """One field of version v: attributes, identifier, type."""
    k = f.kinds[v]
    a = []
    if style == "both":  # numbers in binary, pinned words in text
        a.append(f"#[musli(Binary, name = {f.id})]")
        a.append(f"#[musli(Text, name = \"{name_of(f.id)}\")]")
        ident = f"{'fgh'[v % 3]}{f.id}"
    elif style == "odd":
        a.append(f"#[musli(name = {f.id - 20})]")
        ident = f"{'fgh'[v % 3]}{f.id}"
    elif style == "name":
        ident = f"f{f.id}"
    elif style == "pin":
        a.append(f"#[musli(name = \"{name_of(f.id)}\")]")
        ident = f"{'fgh'[v % 3]}{f.id}"
    elif style == "tup":
        a.append(f"#[musli(name = {order})]")
        ident = None
    if k == "dflt":
        a.append("#[musli(default)]")
    elif k == "seven":
        a.append("#[musli(default = seven)]")
    elif k == "skip":
        a.append(R.choice(["#[musli(default, skip_encoding_if = Option::is_none)]", "#[musli(skip_encoding_if = Option::is_none, default)]"]))
    if f.bytes:
        a.append("#[musli(bytes)]")
    ty = f.ty
    if ty in WRAP and (v + f.id) % 3 == 0 and k != "seven":
        ty = WRAP[ty]
    return a, ident, ty


def need(f, v, ty):
    k = f.kinds[v]
    if k == "must":
        return "Must"
    d = {"dflt": f"<{ty} as Default>::default().model()", "seven": "seven().model()", "skip": "M::Opt(None)"}[k]
    return ("Omit" if k == "skip" else "Dflt") + f"({d})"


def ty_model(f, ty):
    return f"<{ty} as Model>::schema()"


def struct(name, fs, v, style, extra=""):
    mine = [f for f in fs if f.kinds[v]]
    if style != "tup":
        R.shuffle(mine)
    o = []
    o.append("#[derive(Debug, PartialEq, Encode, Decode)]")
    if extra:
        o.append(extra)
    ms = [(f, *member(f, v, style, fs.index(f))) for f in mine]
    if style == "tup":
        o.append(f"pub struct {name}(" + ", ".join(" ".join(a) + f" pub {ty}" for f, a, _, ty in ms) + ");")
        o.append(f"impl Gen for {name} {{ fn gen() -> Self {{ {name}({', '.join('Gen::gen()' for _ in ms)}) }} }}")
        acc = [f"self.{i}" for i in range(len(ms))]
        ids = [fs.index(f) for f in mine]
    else:
        o.append(f"pub struct {name} {{")
        for f, a, i, ty in ms:
            o.append("    " + " ".join(a) + f" pub {i}: {ty},")
        o.append("}")
        o.append(f"impl Gen for {name} {{ fn gen() -> Self {{ {name} {{ {', '.join(f'{i}: Gen::gen()' for _, _, i, _ in ms)} }} }} }}")
        acc = [f"self.{i}" for _, _, i, _ in ms]
        ids = [f.id for f in mine]
    o.append(f"impl Model for {name} {{")
    o.append("    fn model(&self) -> M { M::Rec([" + ", ".join(f"({i}, {a}.model())" for i, a in zip(ids, acc)) + "].into_iter().collect()) }")
    o.append("    fn schema() -> T { T::Rec(vec![" + ", ".join(f"({i}, {need(f, v, ty)}, {ty_model(f, ty)})" for i, (f, _, _, ty) in zip(ids, ms)) + "]) }")
    o.append("}")
    return o


class Variant:
    def __init__(self, vid, style, fs):
        self.id, self.style, self.fs = vid, style, fs  # unit, one, named
        self.since, self.until = 0, N


def enum(name, vs, v, attr, style, fallbacks, tagstyle):
    mine = [x for x in vs if x.since <= v < x.until]
    R.shuffle(mine)
    fb = v in fallbacks
    o = ["#[derive(Debug, PartialEq, Encode, Decode)]"] + attr + [f"pub enum {name} {{"]
    gens, models, schemas = [], [], []
    for x in mine:
        a = []
        nm = f"V{x.id}"
        if tagstyle == "number":
            a.append(f"#[musli(Binary, name = {x.id})]")
            a.append(f"#[musli(Text, name = \"{name_of(x.id)}\")]")
            nm = f"{'VWX'[v % 3]}{x.id}"
        elif tagstyle == "usize":
            a.append(f"#[musli(name = {x.id})]")
            nm = f"{'VWX'[v % 3]}{x.id}"
        elif tagstyle == "word":
            a.append(f"#[musli(name = \"{name_of(x.id)}\")]")
            nm = f"{'VWX'[v % 3]}{x.id}"
        if x.style == "unit":
            o.append(f"    {' '.join(a)} {nm},")
            gens.append(f"{name}::{nm}")
            models.append(f"{name}::{nm} => M::Var({x.id}, Box::new(M::Rec(Default::default())))")
            schemas.append(f"({x.id}, T::Rec(vec![]))")
        elif x.style == "one":
            ty = x.fs[0].ty
            if ty in WRAP and v % 2:
                ty = WRAP[ty]
            o.append(f"    {' '.join(a)} {nm}({ty}),")
            gens.append(f"{name}::{nm}(Gen::gen())")
            models.append(f"{name}::{nm}(a) => M::Var({x.id}, Box::new(M::Rec([(0, a.model())].into_iter().collect())))")
            schemas.append(f"({x.id}, T::Rec(vec![(0, Must, <{ty} as Model>::schema())]))")
        elif x.style == "trans":
            ty = x.fs[0].ty
            o.append(f"    {' '.join(a)} #[musli(transparent)] {nm}({ty}),")
            gens.append(f"{name}::{nm}(Gen::gen())")
            models.append(f"{name}::{nm}(a) => M::Var({x.id}, Box::new(a.model()))")
            schemas.append(f"({x.id}, <{ty} as Model>::schema())")
        else:
            fs = [f for f in x.fs if f.kinds[v]]
            R.shuffle(fs)
            ms = [(f, *member(f, v, style, 0)) for f in fs]
            if style == "name":
                a.append("#[musli(name_all = \"name\")]")
            if style == "pin":
                a.append(STR)
            o.append(f"    {' '.join(a)} {nm} {{")
            for f, fa, i, ty in ms:
                o.append("        " + " ".join(fa) + f" {i}: {ty},")
            o.append("    },")
            gens.append(f"{name}::{nm} {{ {', '.join(f'{i}: Gen::gen()' for _, _, i, _ in ms)} }}")
            models.append(f"{name}::{nm} {{ {', '.join(i for _, _, i, _ in ms)} }} => M::Var({x.id}, Box::new(M::Rec([" + ", ".join(f"({f.id}, {i}.model())" for f, _, i, _ in ms) + "].into_iter().collect())))")
            schemas.append(f"({x.id}, T::Rec(vec![" + ", ".join(f"({f.id}, {need(f, v, ty)}, {ty_model(f, ty)})" for f, _, i, ty in ms) + "]))")
    if fb:
        pins = "" if tagstyle == "same" else "#[musli(name = 9999)]" if tagstyle == "usize" else "#[musli(Binary, name = 9999)]" if tagstyle == "number" else ""
        o.append(f"    #[musli(default)] {pins} Unknown,")
        schemas.append("(9999, T::Rec(vec![]))")
        models.append(f"{name}::Unknown => M::Var(9999, Box::new(M::Rec(Default::default())))")
    o.append("}")
    o.append(f"impl Gen for {name} {{ fn gen() -> Self {{ match choose({len(gens)}) {{")
    for i, g in enumerate(gens):
        o.append(f"    {i if i + 1 < len(gens) else '_'} => {g},")
    o.append("} } }")
    o.append(f"impl Model for {name} {{")
    o.append("    fn model(&self) -> M { match self { " + ", ".join(models) + " } }")
    o.append("    fn schema() -> T { T::Var(vec![" + ", ".join(schemas) + f"], {'Some(9999)' if fb else 'None'}) }}")
    o.append("}")
    return o


def variants(n, styles, allow):
    out = []
    ids = R.sample(range(0, 30), n)
    for j, i in enumerate(ids):
        st = styles[j % len(styles)]
        fs = []
        if st in ("one", "trans"):
            ty = R.choice(["u32", "String", "Vec<u8>", "Option<u64>"] + allow)
            if st == "trans":
                ty = R.choice(["u32", "String", "Vec<String>"] + allow)
            fs = [Field(0, ty)]
        elif st == "named":
            fs = fields(R.randrange(0, 6), allow, R.randrange(0, 2))
        x = Variant(i, st, fs)
        if j >= 2:
            m = R.choice(["added", "added", "removed", "always"])
            if m == "added":
                x.since = R.randrange(1, N)
            elif m == "removed":
                x.until = R.randrange(2, N)
        out.append(x)
    return out


ADDR = fields(7, [], 2)
ITEM = fields(12, ["Addr", "Color"], 2)
NAMED = fields(10, ["Addr", "Color"], 2)
ODD = fields(9, ["Addr"], 2)
LATE = fields(6, ["Color"], 0)
for f in LATE:
    f.kinds[0] = None
    if "must" in f.kinds:
        f.ty = f"Option<{f.ty}>" if not f.ty.startswith("Option") else f.ty
        f.bytes = False
        f.kinds = history(f.ty, False)
        f.kinds[0] = None
TUP = [Field(0, "u32"), Field(1, "String"), Field(2, "Option<Addr>"), Field(3, "Vec<u8>"), Field(4, "u32")]
TUP[0].kinds = ["must"] * N
TUP[1].kinds = ["must", "must", "dflt", "dflt", "must", "must"]
TUP[2].kinds = [None, "dflt", "skip", "dflt", "skip", "dflt"]
TUP[3].kinds = [None, None, "dflt", "dflt", None, None]
TUP[4].kinds = [None, None, None, "seven", None, None]
COLOR = variants(7, ["unit"], [])
KIND = variants(11, ["unit", "one", "named", "trans", "named"], ["Addr", "Item", "Color", "Tup", "Late"])
ADJ = variants(9, ["named", "one", "named", "unit"], ["Addr", "Named"])
JOB = variants(7, ["named", "unit", "named"], ["Addr", "Item", "Named"])
WORD = variants(6, ["one", "named", "unit"], ["Addr"])
ROOT = fields(26, ["Addr", "Item", "Named", "Tup", "Late", "Odd", "Kind", "Adj", "Color", "Word"], 3)
BIG = fields(14, ["Kind", "Job", "Adj", "Word", "Item", "Named"], 1)
# every family takes part at the root, as required there as nested in something
for i, t in enumerate(["Kind", "Vec<Late>", "Option<Adj>", "BTreeMap<String, Color>", "Vec<Named>", "Vec<Tup>", "Vec<Late>", "Option<Odd>", "Vec<Word>", "BTreeMap<String, Item>"]):
    f = Field(400 + i, t)
    f.kinds = history(t, t == "Kind")
    ROOT.append(f)

out = ["//! Written by tools/mkver.py: the versions of the types the nodes hold.", "#![allow(clippy::all)]", "use super::*;", ""]
for v in range(N):
    out.append(f"pub mod v{v} {{")
    out.append("use super::*;")
    b = []
    b += struct("Addr", ADDR, v, "both")
    b += struct("Item", ITEM, v, "both", "#[musli(Binary, name(type = u16))]")
    b += struct("Named", NAMED, v, "name", "#[musli(name_all = \"name\")]")
    b += struct("Odd", ODD, v, "odd", "#[musli(name(type = i32))]")
    b += struct("Late", LATE, v, "pin", STR)
    b += struct("Tup", TUP, v, "tup", "#[musli(name(type = usize))]")
    b += enum("Color", COLOR, v, ["#[musli(name(type = usize))]"], "both", {0, 2, 3}, "usize")
    b += enum("Kind", KIND, v, [], "both", {1, 2, 4}, "number")
    b += enum("Adj", ADJ, v, ["#[musli(tag = \"t\", content = \"c\")]"], "both", set(), "number")
    b += enum("Job", JOB, v, ["#[musli(tag = \"type\", name_all = \"name\")]"], "name", set(), "same")
    b += enum("Word", WORD, v, [STR], "pin", {0, 3, 5}, "word")
    b += struct("Root", ROOT, v, "both")
    b += struct("Big", BIG, v, "pin", STR)
    out += b
    out.append("}")
FAM = ["Root", "Big", "Item", "Named", "Kind", "Adj", "Job", "Color", "Word", "Odd", "Tup"]
out.append(f"pub const VERSIONS: usize = {N};")
out.append("pub static FAMILIES: &[(&str, [&dyn Ver; VERSIONS])] = &[")
for f in FAM:
    out.append(f"    (\"{f}\", [" + ", ".join(f"&S::<v{v}::{f}>(PhantomData)" for v in range(N)) + "]),")
out.append("];")
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../sim/ver/src/versions.rs")
open(p, "w").write("\n".join(out) + "\n")
