"""C12, concrete side (bounded): enum definitions the derive must accept (with the storage it must
choose) or reject, run through the real proc macro of /repo. Case i of a file sits in module c<i>;
diagnostics are attributed to cases by line."""
import json, random
from .common import *

N = 400 if not THOROUGH else 4000
INTS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128}


def spell(r, v):
    s = r.choice(["{}", "{}", "{}", "0x{:x}", "0o{:o}", "0b{:b}", "{:_}"]).format(v)
    return s


def size(tops, repr_):
    """-> condition on BYTES that the storage must meet."""
    top = max(tops) if tops else 0
    if repr_ in INTS:
        return f"BYTES == {INTS[repr_] // 8}"
    if repr_ is None and top < 64:
        return f"BYTES == {next(b for b in (8, 16, 32, 64) if top < b) // 8}"
    return f"BYTES * 8 > {top}"


# names that differ in little, that Rust escapes, or that mean something elsewhere
NAMES = ["a", "A", "aA", "Aa", "AA", "_a", "_A", "a_", "A_", "__", "_0", "_1", "_01", "a1", "A1", "a01", "Ab", "AB", "aB", "ab", "a_b", "A_B", "a__b", "r#fn", "r#type", "r#match", "Fn", "Type", "r#async",
         "\u00e9", "\u00c9", "\u00df", "ss", "SS", "\u4e2d", "E", "EnumSet", "Self_", "Some", "None", "Ok", "Err", "Option", "Result", "T", "Repr", "u8", "str", "usize", "all", "empty", "only", "new", "len", "iter",
         "ALL_BITS", "BIT_WIDTH", "VARIANT_COUNT", "core", "std", "__internal", "Default", "Clone", "Copy", "EnumSetType", "ArrayRepr", "x", "X", "v", "V", "Output", "Error", "Item", "ConstHelper", "Value", "value", "Variant" + "x" * 300]


def enum(r, discs, attrs=(), prelude="", name="E", vis="pub ", names=None):
    """discs: list of (explicit?, value)."""
    vs = ", ".join((names[i] if names else f"V{v}") + (f" = {spell(r, v)}" if e else "") for i, (e, v) in enumerate(discs))
    a = "".join(x + " " for x in attrs)
    return f"{prelude}#[derive(enumset::EnumSetType)] {a}{vis}enum {name} {{ {vs} }}"


def numbering(r, top, n):
    vals = {top}
    while len(vals) < min(n, top + 1):
        vals.add(r.choice([r.randrange(top + 1), top - min(top, r.randrange(4)), min(top, 63), min(top, 64)]))
    vals = list(vals)
    r.shuffle(vals)
    out, prev = [], -1
    for v in vals:
        out.append((v != prev + 1 or r.random() < .3, v))
        prev = v
    return out


def accept(r):
    """-> (what, source, [const conditions])"""
    out = []

    def ok(what, discs, repr_=None, serde=None, extra=(), **kw):
        attrs = []
        opts = ([f'repr = "{repr_}"'] if repr_ else []) + ([f'serialize_repr = "{serde}"'] if serde else []) + list(extra)
        r.shuffle(opts)
        if opts:
            attrs.append(f"#[enumset({', '.join(opts)})]")
        attrs += kw.pop("attrs", [])
        vals = [v for _, v in discs]
        conds = [size(vals, repr_), f"enumset::EnumSet::<{kw.get('name', 'E')}>::bit_width() == {max(vals) + 1 if vals else 0}",
                 f"enumset::EnumSet::<{kw.get('name', 'E')}>::variant_count() == {len(vals)}"]
        out.append((what, enum(r, discs, attrs, **kw), kw.get("name", "E"), conds))

    for name, b in INTS.items():
        for top in (b - 2, b - 1):
            ok(f"repr {name} with largest discriminant {top}", numbering(r, top, 3), name)
            ok(f"serialize_repr {name} with largest discriminant {top}", numbering(r, top, 3), None, name)
            ok(f"serialize_repr {name}, array storage, largest discriminant {top}", numbering(r, top, 2), "array", name)
    for top in (0, 1, 6, 7, 8, 9, 14, 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 129, 191, 192, 193, 255, 256, 511, 512, 1000, 4095, 4096, 9999):
        ok(f"largest discriminant {top}", numbering(r, top, 4))
        ok(f"largest discriminant {top}, only that variant", [(True, top)])
        ok(f"array storage, largest discriminant {top}", numbering(r, top, 3), "array")
    for s in ("list", "map", "array"):
        for top in (5, 64, 128, 300):
            ok(f"serialize_repr {s} with largest discriminant {top}", numbering(r, top, 3), None, s)
    ok("no variants", [])
    ok("no variants, array", [], "array")
    ok("no variants, u8", [], "u8")
    ok("one variant", [(False, 0)])
    out.append(("suffixed discriminant", "#[derive(enumset::EnumSetType)] pub enum E { A = 9isize, B, C = 3_isize }", "E", ["BYTES == 2", "enumset::EnumSet::<E>::bit_width() == 11"]))
    few = [(False, 0), (False, 1), (True, 9)]
    for t in ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "C", "Rust"]:
        if t not in ("u128", "i128"):
            ok(f"#[repr({t})]", few, attrs=[f"#[repr({t})]"])
            ok(f"#[repr({t})] with array storage", few, "array", attrs=[f"#[repr({t})]"])
    for x in ("no_ops", "serialize_deny_unknown", "serialize_as_list", "serialize_as_map", 'crate_name = "enumset"'):
        ok(x, few, extra=[x])
    ok("no_super_impls", few, extra=["no_super_impls"], attrs=["#[derive(Copy, Clone, PartialEq, Eq)]"])
    ok("options in several attributes", few, "u16", attrs=["#[enumset(no_ops)]", '#[enumset(serialize_repr = "list")]'])
    ok("other attributes", few, attrs=["#[allow(dead_code)]", "#[doc = \"x\"]", "#[non_exhaustive]"])
    for v in ("", "pub ", "pub(crate) ", "pub(super) ", "pub(in crate) "):
        ok(f"visibility '{v}'", few, vis=v)
        ok(f"visibility '{v}', array", few, "array", vis=v)
    # names that derived code might use itself
    for n in ("O", "S", "D", "A", "T", "V", "Visitor", "EnumSet", "Repr", "Into", "Option", "Some", "Result", "Ok", "Vec", "Sub", "BitOr", "Serialize",
              "Deserialize", "Serializer", "Self_", "u8_", "ArrayRepr", "Iterator", "core", "std", "Copy_", "__Helper"):
        ok(f"enum named {n}", few, name=n)
        ok(f"enum named {n}, array storage and list serialization", few, "array", "list", name=n)
        ok(f"enum named {n}, map serialization", few, None, "map", name=n)
        ok(f"enum named {n}, deny unknown", few, None, "array", extra=["serialize_deny_unknown"], name=n)
    for item in ("trait Into {}", "trait Iterator {}", "trait Clone {}", "enum Option {}", "struct Result;", "fn panic() {}", "mod core {}", "mod std {}", "trait From {}",
                 "struct EnumSet;", "trait PartialEq {}", "macro_rules! panic { () => {} }", "macro_rules! assert { () => {} }", "const Some: u32 = 3;", "struct Vec;", "mod serde {}", "mod u8 {}",
                 "macro_rules! write { () => {} }", "macro_rules! concat { () => {} }", "macro_rules! stringify { () => {} }", "macro_rules! matches { () => {} }", "macro_rules! unreachable { () => {} }", "trait Not {}", "trait Default {}", "trait ToString {}", "trait AsRef {}", "struct Box;", "struct String;", "fn drop() {}"):
        if item in ("macro_rules! assert { () => {} }",):
            continue
        ok(f"next to `{item}`", few, prelude=item + " ")
        ok(f"next to `{item}`, array and list", few, "array", "list", prelude=item + " ")
        ok(f"next to `{item}`, array and map", few, "array", "map", prelude=item + " ")
        ok(f"next to `{item}`, array twice", few, "array", "array", prelude=item + " ")
        ok(f"next to `{item}`, u64, strict", few, None, "u64", extra=["serialize_deny_unknown"], prelude=item + " ")
        ok(f"next to `{item}`, array, strict", few, "array", "array", extra=["serialize_deny_unknown"], prelude=item + " ")
        ok(f"next to `{item}`, no variants", [], None, "array", prelude=item + " ")
        ok(f"next to `{item}`, one variant", [(False, 0)], prelude=item + " ")
    # what the variants are called does not matter
    whole = [(False, i) for i in range(len(NAMES))]
    for repr_, serde in ((None, None), ("u128", None), ("array", None), (None, "list"), ("array", "map"), (None, "array")):
        ok("variant names", whole, repr_, serde, names=NAMES)
    for a, b in (("a", "A"), ("Ab", "AB"), ("a_b", "ab"), ("_a", "a"), ("a1", "a01"), ("r#fn", "Fn"), ("\u00e9", "\u00c9"), ("\u00df", "ss"), ("x", "Variant" + "x" * 300), ("A", "AA")):
        ok(f"variants {a[:20]} and {b[:20]}", [(False, 0), (False, 1)], names=[a, b])
        ok(f"variants {b[:20]} and {a[:20]}, array", [(True, 70), (True, 3)], "array", names=[b, a])
    for i in range(40):
        k = r.randrange(2, len(NAMES))
        ok("random variant names", numbering(r, 100, k), None, r.choice([None, "list", "map"]), names=r.sample(NAMES, k))
    for k in (8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 200, 256, 257, 700):
        ok(f"{k} variants", [(False, i) for i in range(k)])
        ok(f"{k} variants, last one first", [(True, k - 1)] + [(i == 0, i) for i in range(k - 1)], "array")
    for t in ("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "usize", "isize"):
        out.append((f"#[repr({t})], suffixed", f"#[derive(enumset::EnumSetType)] #[repr({t})] pub enum E {{ A = 9{t}, B, C = 0x3_{t} }}", "E", ["BYTES == 2", "enumset::EnumSet::<E>::bit_width() == 11", "enumset::EnumSet::<E>::variant_count() == 3"]))
    for w, n in (("macro_rules! m { ($v:vis $n:ident $($i:ident)*) => { #[derive(enumset::EnumSetType)] $v enum $n { $($i),* } } } m! { pub E A B C D F G H I J }", 9),
                 ("macro_rules! m { ($($t:tt)*) => { #[derive(enumset::EnumSetType)] $($t)* } } m! { #[enumset(repr = \"u16\")] pub enum E { A = 4, B, C = 8 } }", 3),
                 ("macro_rules! m { ($($i:ident = $l:tt),*) => { #[derive(enumset::EnumSetType)] pub enum E { $($i = $l),* } } } m! { A = 8, B = 3 }", 2),
                 ("macro_rules! m { ($(#[$a:meta])* $i:ident) => { $(#[$a])* pub enum E { A, $i = 8 } } } m! { #[derive(enumset::EnumSetType)] #[enumset(no_ops)] B }", 2)):
        out.append((f"made by a macro: {w[:60]}", w, "E", ["BYTES == 2", "enumset::EnumSet::<E>::bit_width() == 9", f"enumset::EnumSet::<E>::variant_count() == {n}"]))
    for o in ("", '#[enumset(repr = "u16")] ', '#[enumset(repr = "array")] ', '#[enumset(serialize_repr = "list")] ', '#[enumset(serialize_repr = "array", serialize_deny_unknown)] '):
        serde = ("impl ::serde::Serialize for F { fn serialize<SS: ::serde::Serializer>(&self, _: SS) -> ::core::result::Result<SS::Ok, SS::Error> { loop {} } } "
                 "impl<'d> ::serde::Deserialize<'d> for F { fn deserialize<DD: ::serde::Deserializer<'d>>(_: DD) -> ::core::result::Result<Self, DD::Error> { loop {} } } ") if "list" in o else ""
        out.append((f"inside a function {o}", f"#[derive(enumset::EnumSetType)] pub enum E {{ A }} pub fn f() {{ #[derive(enumset::EnumSetType)] {o}enum F {{ A, B = 8 }} {serde}const _: () = [()][!(enumset::EnumSet::<F>::bit_width() == 9) as usize]; }}", "E", []))
    for a in ("#[doc = \"x\"] ", "#[cfg(all())] ", "#[allow(non_camel_case_types)] ", "#[cfg_attr(all(), doc = \"x\")] ", "/** x */ "):
        out.append((f"attribute on a variant: {a}", f"#[derive(enumset::EnumSetType)] pub enum E {{ {a}A, #[cfg(any())] X = 100, B = 8, {a}C = 2 }}", "E", ["BYTES == 2", "enumset::EnumSet::<E>::bit_width() == 9", "enumset::EnumSet::<E>::variant_count() == 3"]))
    for o in ("", 'repr = "u16"', 'repr = "array"', 'serialize_repr = "list"', 'serialize_repr = "map"', 'serialize_repr = "array"', 'repr = "array", serialize_repr = "u16", serialize_deny_unknown', 'serialize_repr = "array", serialize_deny_unknown', "no_ops"):
        for v, w in (("A = 8, B = 3", 2), ("B = 8", 1), ("", 0)):
            out.append((f"without the prelude, {o} {{ {v} }}", f"#![no_implicit_prelude] #[derive(::enumset::EnumSetType)] #[enumset({o})] pub enum E {{ {v} }}", "E", [f"::enumset::EnumSet::<E>::variant_count() == {w}"]))
    # definitions written by a macro: a fragment the macro passes on comes in an invisible group
    D = "#[derive(enumset::EnumSetType)] "
    for frag, args in (("literal", ("9", "0x9", "9isize", "0b1001", "9_", "0o11_isize")), ("expr", ("9", "9isize")), ("tt", ("9", "0x9"))):
        for a in args:
            out.append((f"discriminant {a} from a macro's ${frag}", f"macro_rules! m {{ ($d:{frag}) => {{ {D}pub enum E {{ A = $d, B, C = 0 }} }} }} m! {{ {a} }}", "E",
                        ["BYTES == 2", "enumset::EnumSet::<E>::bit_width() == 11", "enumset::EnumSet::<E>::variant_count() == 3"]))
    out.append(("discriminant from a macro called by a macro", f"macro_rules! m {{ ($d:expr, $f:expr) => {{ {D}pub enum E {{ A = $d, B = $f, C }} }} }} macro_rules! n {{ ($d:literal, $f:expr) => {{ m! {{ $d, $f }} }} }} macro_rules! o {{ ($d:literal, $f:literal) => {{ n! {{ $d, $f }} }} }} o! {{ 70, 12 }}", "E",
                ["BYTES == 16", "enumset::EnumSet::<E>::bit_width() == 71"]))
    for frag, arg, use, cond in (("literal", '"u32"', "#[enumset(repr = $x)]", "BYTES == 4"), ("literal", '"array"', "#[enumset(repr = $x)]", "BYTES == 8"), ("literal", '"u16"', "#[enumset(serialize_repr = $x)]", "BYTES == 1"),
                                 ("meta", 'enumset(repr = "u64")', "#[$x]", "BYTES == 8"), ("meta", "repr(u8)", "#[$x]", "BYTES == 1"), ("meta", 'repr = "u16"', "#[enumset($x)]", "BYTES == 2"), ("ident", "u8", "#[repr($x)]", "BYTES == 1"),
                                 ("tt", "i64", "#[repr($x)]", "BYTES == 1"), ("tt", '"u128"', "#[enumset(repr = $x)]", "BYTES == 16"), ("literal", '"enumset"', "#[enumset(crate_name = $x)]", "BYTES == 1"), ("vis", "pub", "$x", "BYTES == 1"), ("vis", "pub(crate)", "$x", "BYTES == 1")):
        vis = "" if frag == "vis" else "pub "
        out.append((f"macro's ${frag} {arg} in {use}", f"macro_rules! m {{ ($x:{frag}) => {{ {D}{use} {vis}enum E {{ A, B }} }} }} m! {{ {arg} }}", "E", [cond]))
    out.append(("a macro's $item", f"macro_rules! m {{ ($x:item) => {{ {D}$x }} }} m! {{ pub enum E {{ A = 9, B }} }}", "E", ["BYTES == 2"]))
    out.append(("a macro's lists", f"macro_rules! m {{ ($(#[$a:meta])* $v:vis enum $n:ident {{ $($x:ident = $d:literal),* $(,)? }}) => {{ {D}$(#[$a])* $v enum $n {{ $($x = $d),* }} }} }} m! {{ #[enumset(repr = \"u32\")] pub enum E {{ A = 4, B = 31, C = 0, }} }}", "E", ["BYTES == 4", "enumset::EnumSet::<E>::bit_width() == 32", "enumset::EnumSet::<E>::variant_count() == 3"]))
    out.append(("trailing comma, where clause", "#[derive(enumset::EnumSetType)] pub enum E where u8: Copy { A, B = 8, }", "E", ["BYTES == 2"]))
    for i in range(N):
        repr_ = r.choice([None, None, None, "array"] + list(INTS))
        serde = r.choice([None, None, "list", "map", "array"] + list(INTS))
        cap = min([INTS[x] for x in (repr_, serde) if x in INTS] + [200])
        top = r.randrange(cap)
        ok("random", numbering(r, top, r.randrange(1, 9)), repr_, serde, extra=r.sample(["no_ops", "serialize_deny_unknown"], r.choice([0, 0, 1])))
    return out


def reject(r):
    out = []
    D = "#[derive(enumset::EnumSetType)] "

    def no(what, src):
        out.append((what, src, "E", []))

    for name, b in INTS.items():
        for top in (b, b + 1, 2 * b, 2 * b + 1, 300):
            no(f"repr {name} with largest discriminant {top}", enum(r, numbering(r, top, 3), [f'#[enumset(repr = "{name}")]']))
            no(f"serialize_repr {name} with largest discriminant {top}", enum(r, numbering(r, top, 3), [f'#[enumset(serialize_repr = "{name}")]']))
            no(f"serialize_repr {name}, array storage, largest discriminant {top}", enum(r, numbering(r, top, 3), [f'#[enumset(repr = "array", serialize_repr = "{name}")]']))
        no(f"repr {name} with one variant too many", enum(r, [(False, i) for i in range(b + 1)], [f'#[enumset(repr = "{name}")]']))
    for s_ in ("list", "map", "array") + tuple(INTS):
        for name, b in INTS.items():
            # either of the two may be the one that is too small
            no(f"repr {name} too small, serialize_repr {s_}", enum(r, numbering(r, b, 3), [f'#[enumset(repr = "{name}", serialize_repr = "{s_}")]']))
            if s_ in INTS and INTS[s_] < b:
                top = r.choice([INTS[s_], b - 1])
                no(f"repr {name}, serialize_repr {s_} too small", enum(r, numbering(r, top, 3), [f'#[enumset(repr = "{name}", serialize_repr = "{s_}")]']))
    for x in ("u7", "U8", "u256", "usize", "i8", "list", "map", "", "u8 ", "Array", "[u64]", "bool"):
        no(f"repr = {x!r}", D + f'#[enumset(repr = "{x}")] pub enum E {{ A, B }}')
    for x in ("u7", "U8", "u256", "usize", "i8", "", "u8 ", "List", "Array", "seq", "[u64]"):
        no(f"serialize_repr = {x!r}", D + f'#[enumset(serialize_repr = "{x}")] pub enum E {{ A, B }}')
    for v in ("A(u8)", "A(u8), B", "B, A { x: u8 }", "B, C, D = 5, A(u8)"):
        no(f"variants {v}", D + f"pub enum E {{ {v} }}")
    for frag, a in (("literal", "-1"), ("expr", "-1"), ("expr", "1 + 2"), ("expr", "(3)"), ("expr", "{ 3 }"), ("expr", "!0"), ("literal", "'a'"), ("literal", "4294967232"), ("expr", "4294967296"), ("ident", "X"), ("expr", "u8::MAX"), ("literal", "b'x'"), ("literal", "true")):
        no(f"discriminant {a} from a macro's ${frag}", f"const X: isize = 1; macro_rules! m {{ ($d:{frag}) => {{ {D}pub enum E {{ A, B = $d }} }} }} m! {{ {a} }}")
    for g, b in (("<T>", "A, B"), ("<'a>", "A, B"), ("<const N: usize>", "A, B"), ("<T: Copy>", "A"), ("<'a, T>", "")):
        no(f"generics {g}", D + f"pub enum E{g} {{ {b} }}")
    no("struct", D + "pub struct E;")
    no("struct with fields", D + "pub struct E { x: u8 }")
    no("tuple struct", D + "pub struct E(u8);")
    no("union", D + "pub union E { x: u8 }")
    for v in ("-1", "-0", "-128", "- 5"):
        no(f"discriminant {v}", D + f"pub enum E {{ A, B = {v} }}")
    for v in ("1 + 1", "K", "(3)", "1 << 3", "K + 1", "{ 4 }", "5 as isize", "!0", "'a' as isize", "u8::MAX as isize", "mul(2)", "if true { 1 } else { 2 }"):
        no(f"discriminant {v}", f"const K: isize = 3; const fn mul(x: isize) -> isize {{ x }} " + D + f"pub enum E {{ A, B = {v} }}")
    for v in ("0xFFFFFFC0", "4294967232", "0xFFFFFFC1", "0xFFFFFFDF", "0xFFFFFFFF", "0x1_0000_0000", "0x1_0000_0001", "0x7FFF_FFFF_FFFF_FFFF", "4294967296", "99999999999999999999999"):
        no(f"discriminant {v}", D + f"pub enum E {{ A, B = {v} }}")
        no(f"discriminant {v} then a lower one", D + f"pub enum E {{ A = {v}, B = 3 }}")
    no("unknown option", D + "#[enumset(nonsense)] pub enum E { A }")
    for t in ("align(4)", "transparent", "packed"):
        no(f"#[repr({t})]", D + f"#[repr({t})] pub enum E {{ A, B }}")
    for i in range(N // 2):
        which, (name, b) = r.choice(["repr", "serialize_repr"]), r.choice(list(INTS.items()))
        top = r.randrange(b, 400)
        other = ", " + ("serialize_repr" if which == "repr" else "repr") + ' = "' + r.choice(["array"] + list(INTS)) + '"'
        other = r.choice(["", other, other]) + r.choice(["", ", no_ops", ", serialize_deny_unknown"])
        no(f"random: {which} = {name}, largest discriminant {top}", enum(r, numbering(r, top, r.randrange(1, 8)), [f'#[enumset({which} = "{name}"{other})]']))
    return out


def render(cases):
    lines = ["#![allow(warnings)]"]
    for i, (what, src, name, conds) in enumerate(cases):
        body = "".join(f"const _: () = [()][!({c.replace('BYTES', f'::core::mem::size_of::<::enumset::EnumSet<super::{name}>>()').replace('<' + name + '>', f'<super::{name}>').replace('enumset::EnumSet', 'enumset::EnumSet')}) as ::core::primitive::usize]; "
                       for c in conds)
        if "list" in src or "map" in src:
            body += (f"impl ::serde::Serialize for super::{name} {{ fn serialize<SS: ::serde::Serializer>(&self, _: SS) -> ::core::result::Result<SS::Ok, SS::Error> {{ loop {{}} }} }} "
                     f"impl<'d> ::serde::Deserialize<'d> for super::{name} {{ fn deserialize<DD: ::serde::Deserializer<'d>>(_: DD) -> ::core::result::Result<Self, DD::Error> {{ loop {{}} }} }}")
        lines.append(f"mod c{i} {{ {src} mod check {{ {body} }} }}")
    return "\n".join(lines) + "\n"


def lines_of(span):
    out = set()
    while span:
        if span.get("file_name", "").endswith(".rs"):
            out.update((span["file_name"], l) for l in range(span["line_start"], span["line_end"] + 1))
        ex = span.get("expansion")
        span = ex["span"] if ex else None
    return out


LOOKUPS = [
    # (what the manifest of the user says, name the crate is known by)
    ("the crate under its own name", '[package]\nname = "user"\nversion = "1.0.0"\n[dependencies]\nenumset = "1"\n', "enumset"),
    ("the crate renamed", '[package]\nname = "user"\nversion = "1.0.0"\n[dependencies]\nbit_sets = { package = "enumset", version = "1" }\n', "bit_sets"),
    ("the crate renamed with dashes", '[package]\nname = "user"\nversion = "1.0.0"\n[dependencies]\nbit-sets = { version = "1", package = "enumset" }\n', "bit_sets"),
    ("the crate renamed, for one target", '[package]\nname = "user"\nversion = "1.0.0"\n[target.\'cfg(unix)\'.dependencies]\nsets = { version = "1", package = "enumset" }\n', "sets"),
    ("the crate renamed among the dev-dependencies", '[package]\nname = "user"\nversion = "1.0.0"\n[dev-dependencies]\nes = { version = "1", package = "enumset" }\n', "es"),
    ("no enumset among the dependencies", '[package]\nname = "user"\nversion = "1.0.0"\n', "enumset"),
    ("the crate itself (its tests)", '[package]\nname = "enumset"\nversion = "1.1.5"\n', "enumset"),
]


def renamed(crate="renamed", said=True):
    """Definitions that reach the crate under another name."""
    out = []
    for i, (o, v) in enumerate([("", "A, B = 7"), (', repr = "array"', "A, B = 63"), ("", "A, B = 200"), (', serialize_repr = "list"', "A, B"), (', serialize_repr = "map"', "A, B"),
                                (', serialize_repr = "array", serialize_deny_unknown', "A, B = 99"), (', repr = "u128", serialize_deny_unknown', "A, B = 99"), ("", ""), ("", "A = 3"), (", no_ops", "A, B")]):
        a = f'crate_name = "{crate}"{o}' if said else o[2:]
        src = f'#[derive({crate}::EnumSetType)] #[enumset({a})] pub enum E {{ {v} }}'
        body = f"const _: [(); {len([x for x in v.split(',') if x.strip()])}] = [(); ::{crate}::EnumSet::<super::E>::variant_count() as usize];"
        if "list" in o or "map" in o:
            body += ("impl ::serde::Serialize for super::E { fn serialize<SS: ::serde::Serializer>(&self, _: SS) -> ::core::result::Result<SS::Ok, SS::Error> { loop {} } } "
                     "impl<'d> ::serde::Deserialize<'d> for super::E { fn deserialize<DD: ::serde::Deserializer<'d>>(_: DD) -> ::core::result::Result<Self, DD::Error> { loop {} } }")
        out.append((f"#[enumset({a})] {{ {v} }}", f"mod c{i} {{ {src} mod check {{ {body} }} }}"))
    a = f'crate_name = "{crate}"' if said else ""
    out.append((f"#[enumset({a})] {{ A }} beside modules of the same name", f"mod shadow {{ mod {crate} {{}} mod core {{}} mod serde {{}} mod enumset_ {{}} #[derive(::{crate}::EnumSetType)] #[enumset({a})] pub enum E {{ A }} }}"))
    return out


def rustc(path, rlib, deps, timeout, name="enumset", edition=2021, **kw):
    """-> (rc, {line: message}, other error text). The address space is limited: a definition that
    makes the derive allocate without bound must not take the machine down."""
    cmd = f"ulimit -v 12000000; exec rustc --edition {edition} --crate-type lib --crate-name cases --emit=metadata --error-format=json -o {path}.rmeta --extern {name}={rlib[0]} --extern serde={rlib[1]} -L dependency={deps} {path}"
    rc, o, e = run(["bash", "-c", cmd], timeout=timeout, **kw)
    hit, other = {}, []
    for l in e.splitlines():
        if not l.startswith("{"):
            if "panicked" in l or "memory allocation" in l:
                other.append(l)
            continue
        d = json.loads(l)
        if d.get("level") not in ("error", "error: internal compiler error"):
            continue
        for s in d["spans"]:
            for f, n in lines_of(s):
                if f == path:
                    hit.setdefault(n, d["message"])
        if not d["spans"]:
            other.append(d["message"])
    return rc, hit, "\n".join(other)


def libraries(r, target_dir, features):
    """-> paths of the crate and of serde, built with these features of the harness."""
    for attempt in range(2):
        rc, o, e = run(["cargo", "build", "--features", features + (",thorough" if THOROUGH else ""), "--target-dir", target_dir, "--message-format=json"], cwd=harness_dir(), timeout=400)
        if rc in (0, None):
            break
    libs = {}
    for l in o.splitlines():
        if l.startswith("{"):
            d = json.loads(l)
            if d.get("reason") == "compiler-artifact" and d["target"]["name"] in ("enumset", "serde"):
                libs[d["target"]["name"]] = [f for f in d["filenames"] if f.endswith(".rlib")][0]
    if "enumset" not in libs or "serde" not in libs:
        r.error = "enumset did not build:\n" + e[-2000:]
        return None
    return libs["enumset"], libs["serde"]


def known_as(r, d, rlib, deps, crate, said, why, **kw):
    """The crate can be used under this name."""
    path = os.path.join(d, "renamed.rs")
    cases = renamed(crate, said)
    open(path, "w").write("\n".join([f"#![allow(warnings)] #![forbid(unsafe_code)] extern crate {crate}; extern crate serde; extern crate core;"] + [c[1] for c in cases]) + "\n")
    rc, hit, other = rustc(path, rlib, deps, 100, crate, **kw)
    if rc in (0, 1) and (rc == 1) == bool(hit):
        for i, c in enumerate(cases):
            if i + 2 in hit and len(r.violations) < 3:
                r.violations.append(dict(what=f"derive: {c[0]} must be accepted ({why}): {hit[i + 2][:200]}", confirmed=True,
                    replay=f"definition: {c[1]}\nexpected: accepted; {why}; the crate is known as `{crate}` only\nrustc: {hit[i + 2]}\n"))
    else:
        r.undecided.append((f"renamed: {why}", f"exit {rc}; {other[:300]}"))
    r.info["renamed"] = r.info.get("renamed", 0) + len(cases)


def run_cases(target_dir):
    r = Result("derive cases")
    t0 = time.time()
    rlib = libraries(r, target_dir, "c12")
    if not rlib:
        return r
    deps = os.path.join(target_dir, "debug", "deps")
    d = os.path.join(WORK, "cases-" + str(os.getpid()))
    os.makedirs(d, exist_ok=True)
    rnd = random.Random(SEED)
    try:
        p = os.path.join(d, "control.rs")
        open(p, "w").write("extern crate enumset; pub fn f<T: enumset::EnumSetType>(_: T) {}\n")
        rc, hit, other = rustc(p, rlib, deps, 60)
        if rc != 0:
            r.error = f"the control program does not compile: {rc} {hit} {other}"
            return r
        known_as(r, d, rlib, deps, "renamed", True, "the name is given")
        for y in (2015, 2018, 2024):
            known_as(r, d, rlib, deps, "enumset", False, f"edition {y}", edition=y)
        for kind, cases in (("accept", accept(rnd)), ("reject", reject(rnd))):
            path = os.path.join(d, kind + ".rs")
            open(path, "w").write(render(cases))
            rc, hit, other = rustc(path, rlib, deps, 200)
            bad = []
            if rc in (0, 1) and "panicked" not in other:
                for i, c in enumerate(cases):
                    m = hit.get(i + 2)
                    if (m is not None) != (kind == "reject") or (m and "panicked" in m):
                        bad.append((c, m))
            if rc not in (0, 1) or "panicked" in other or (kind == "accept" and rc != 0 and not bad) or bad:
                # one case per process: no case hides another
                todo = [c for c, _ in bad] if bad else cases
                bad = []
                for c in todo[:60 if not bad else 20]:
                    if time.time() - t0 > 420:
                        r.undecided.append((kind, "time limit while isolating failing definitions"))
                        break
                    p = os.path.join(d, "one.rs")
                    open(p, "w").write(render([c]))
                    rc1, h1, o1 = rustc(p, rlib, deps, 30)
                    ok = rc1 == 0 if kind == "accept" else (rc1 == 1 and bool(h1) and not any("panicked" in m for m in h1.values()))
                    if not ok:
                        bad.append((c, f"exit {rc1}; " + "; ".join(list(h1.values())[:3]) + o1[:300]))
                        if len(bad) >= 3:
                            break
                if not bad:
                    r.undecided.append((kind, "the batch failed but no single definition does"))
            for c, m in bad[:3]:
                want = "must be accepted" + (" with this storage" if c[3] else "") if kind == "accept" else "must be rejected with a diagnostic"
                r.violations.append(dict(what=f"derive: {c[0]} {want}: {str(m)[:200] if m else 'accepted'}", confirmed=True,
                    replay=f"definition: {c[1]}\nconditions on it: {c[3]}\nexpected: {want}\nrustc: {m}\n"))
            r.info[kind] = len(cases)
            r.info[kind + "_samples"] = [c[1] for c in rnd.sample(cases, 2)]
        # the derive finds the name in the manifest
        rlib = libraries(r, target_dir, "std")
        if rlib:
            for what, manifest, crate in LOOKUPS:
                m = os.path.join(d, "manifest")
                os.makedirs(m, exist_ok=True)
                open(os.path.join(m, "Cargo.toml"), "w").write(manifest + "[workspace]\n")
                known_as(r, d, rlib, deps, crate, False, "manifest: " + what, CARGO_MANIFEST_DIR=m, CARGO_MANIFEST_PATH=os.path.join(m, "Cargo.toml"))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    r.wall = time.time() - t0
    r.info["wall_s"] = round(r.wall, 1)
    return r
