#!/usr/bin/env python3
"""Writes harness/src/types.rs: the enum family the contract harnesses are instantiated on.
Each enum's definition is restated (ALL, D) from the same list the enum is written from, so the
restatement does not go through the derive macro."""
import random

def rng(*xs): return list(xs)
R = random.Random(20261119)
def some(lo, hi, n, must=()):
    s = set(must)
    while len(s) < n: s.add(R.randrange(lo, hi))
    l = sorted(s); R.shuffle(l); return l

# name, discriminants in declaration order (None = implicit), rust repr, enumset options, serde
T = []
def t(name, ds, rust=None, opts=None): T.append((name, ds, rust, opts))

# --- automatic integer storage
t("D8", [None]*8)
t("S8", [6, 1, 4, 0])
t("S16", [3, None, 15, 0, 8])
t("D16", [None]*16)
t("S32", [30, None, 0, 1, 7, 16, 17])
t("S64", [63, 0, 1, 31, 32, 33, 62, 40])
t("D64", [None]*64)
# --- u128
t("X128", [127, 0, 1, 5, 63, 64, 65, 100], None, 'repr = "u128"')
t("F128", [None]*128, None, 'repr = "u128"')
# --- arrays
t("A1", [5, 63, 0, 32], None, 'repr = "array"')
t("A2", [100, 0, 63, 64, None, 3])
t("A2H", [64, 90, 127])
t("A3", [191, 1, 70, 130, 128, 127])
t("A4", [0, 5, 63, 200, 255, 192, 64])
t("A4E", [3, 254, 62])
# --- explicit integer storage, wider than needed
t("R8", [7, 0, 3], None, 'repr = "u8"')
t("R16", [2, 0, 11], None, 'repr = "u16"')
t("R32", [2, 0, 9, 31], None, 'repr = "u32"')
t("R64", [2, 0, 40], None, 'repr = "u64"')
t("R128", [2, 0, 40], None, 'repr = "u128"')
# --- Rust representations
t("RU8", [200, 5, None, 64], 'u8')
t("RI16", [5, None, 0, 30], 'i16')
t("RU64", [5, None, 0, 60], 'u64')
t("RC", [9, None, 0], 'C')
# --- degenerate
t("One0", [0])
t("One9", [9])
t("One70", [70])
# --- iteration-sized (few variants; every storage)
t("I8", [7, 0, 2, 3])
t("I64", [63, 0, 31, 32])
t("I128", [127, 0, 63, 64], None, 'repr = "u128"')
t("IA1", [63, 1, 0], None, 'repr = "array"')
t("IA3", [150, 0, 63, 64, 128])
t("IA4", [255, 2, 63, 192])
# --- large, explored natively only
t("L9", some(0, 576, 120, (0, 63, 64, 127, 511, 512, 575)))
t("L17", some(0, 1088, 300, (0, 63, 64, 1023, 1087)))
t("L4D", [None]*256)
t("L3D", [None]*180, None, 'repr = "array"')
t("L5S", some(0, 320, 6, (319,)))
# contiguous from 0 without filling the storage
for c, o in ((3, None), (12, None), (20, None), (40, None), (70, None), (130, None)): t(f"C{c}", [None]*c, None, o)
for b, c in ((8, 5), (16, 9), (32, 20), (64, 40), (128, 100)): t(f"R{b}C", [None]*c, None, f'repr = "u{b}"')
t("H", [70000, 0, 1, 63, 64, 255, 4095, 16383, 16384, 65535, 65536, 69999])

def resolve(ds):
    out = []; p = -1
    for d in ds:
        p = p + 1 if d is None else d
        out.append(p)
    assert len(set(out)) == len(out)
    return out

def nth(name, vs):
    """The i-th declared variant (a match rather than a table: Kani cannot compile tables of zero-sized enums)."""
    if len(vs) == 1: return f"fn nth(_: usize) -> Self {{ {name}::{vs[0]} }}"
    return "fn nth(i: usize) -> Self { match i { " + " ".join(f"{i} => {name}::{v}," for i, v in enumerate(vs[:-1])) + f" _ => {name}::{vs[-1]} }} }}"

def words(name):
    ds, opts = next((d, o) for n, d, _, o in T if n == name)
    return 2 if opts and "u128" in opts else max(1, (max(resolve(ds)) + 64) // 64)

o = ["// Generated by tools/gen_types.py; do not edit.",
     "#![allow(dead_code)]",
     "use crate::fam::Fam;", "use enumset::EnumSetType;", ""]
for name, ds, rust, opts in T:
    res = resolve(ds)
    w = words(name)
    vs = [f"V{d}" for d in res]
    if rust: o.append(f"#[repr({rust})]")
    o.append("#[derive(EnumSetType, Debug)]")
    if opts: o.append(f"#[enumset({opts})]")
    o.append(f"pub enum {name} {{ " + ", ".join(v if d is None else f"{v} = {d}" for v, d in zip(vs, ds)) + " }")
    o.append(f"impl Fam<{w}> for {name} {{")
    o.append("    " + nth(name, vs))
    o.append(f"    const D: &'static [u32] = &[{', '.join(map(str, res))}];")
    o.append("}")
    o.append("const _: () = { " + " ".join(f"assert!({name}::{v} as u32 == {d});" for v, d in zip(vs, res)) + " };")
    o.append(f"impl core::fmt::Display for {name} {{ fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {{ match self {{ " +
             " ".join(f'{name}::{v} => f.write_str("d{d}"),' for v, d in zip(vs, res)) + " } } }")
    o.append("")
o.append("#[derive(EnumSetType, Debug)]\npub enum Empty {}\nimpl Fam<1> for Empty { fn nth(_: usize) -> Self { unreachable!() } const D: &'static [u32] = &[]; }")
o.append("")
# Which property harness set uses which types: macros passing (name, W) lists
def lst(names):
    d = {n: words(n) for n, *_ in T}; d["Empty"] = 1
    return " ".join(f"{n}:{d[n]}" for n in names)
ints = ["D8", "S8", "S16", "D16", "S32", "S64", "D64", "X128"]
arrs = ["A1", "A2", "A2H", "A3", "A4"]
expl = ["R8", "R16", "R32", "R64", "R128"]
odd = ["RU8", "RI16", "RC", "One0", "One9", "One70"]
nat = ["F128", "A4E", "L9", "L17", "L4D", "L3D", "L5S", "RU64", "C3", "C12", "C20", "C40", "C70", "C130", "H"]
rc = ["R8C", "R16C", "R32C", "R64C", "R128C"]
everything = ["I8", "I64", "I128", "IA1", "IA3", "IA4"] + ints + arrs + expl + odd + nat + rc
# group -> (proved in quick, proved additionally in thorough); the rest of `everything` is searched natively
groups = {
    "core": (ints + arrs + ["R32", "R128", "One9", "RU8", "L3D", "L4D", "L5S", "L9"], []),
    "ends": (ints + arrs + ["R32", "R128", "One9", "RU8", "L5S"], ["L3D"]),
    "conv": (["D8", "S16", "S64", "X128", "A1", "A2", "A3", "R128", "One0", "L9"], ["S32", "D64", "A2H", "A4", "R16", "F128"]),
    "repr": (expl + ["X128"], ["F128"]),
    "iter": (["I8", "I64", "I128", "IA1", "One9"], ["IA3", "IA4"]),
    "iterw": (["A2", "A2H"], ["A3", "IA4"]),
    "sample": (["S8", "S64", "X128", "A1", "A2", "A3"], ["S32", "A4"]),
    "number": (["S8", "S16", "S64", "X128", "A1", "A2", "A2H", "A4"] + odd, ["A3", "D64"]),
    "text": (["I8", "I64"], ["IA1"]),
    "fail": (["I8"], ["I64", "IA1"]),
    "routes": (["S8", "S64", "X128"], ["A2"]),
    "native": ([], []),
    "wide": (["S16", "S64", "D64", "X128", "A1", "A2", "A3", "R16"], ["S32", "A2H", "A4"]),
}
only = {"repr": expl + ["X128", "F128"] + rc, "text": ["S8"], "fail": ["S8"]}
o.append("/// `on!(group, contract, kind, unwind)`: instantiate a contract on a group of enums.\n#[macro_export]\nmacro_rules! on {")
for g, (k, t_) in groups.items():
    k = list(dict.fromkeys(k)); t_ = [x for x in dict.fromkeys(t_) if x not in k]
    n = [x for x in dict.fromkeys(only.get(g, everything)) if x not in k + t_]
    o.append(f"    ({g}, $f:ident, $kind:ident, $u:literal) => {{ $crate::contract!($f, $kind, $u; {lst(k)}; {lst(t_)}; {lst(n)}); }};")
o.append("}")
open("/verif/harness/src/types.rs", "w").write("\n".join(o) + "\n")

# ---------------------------------------------------------------- C11: numbering of many definitions
R = random.Random(11)
def lit(d):
    k = R.randrange(6)
    s = str(d)
    if k == 1: return hex(d)
    if k == 2 and len(s) > 1: return s[0] + "_" + s[1:]
    if k == 3: return "0b" + bin(d)[2:]
    if k == 4: return "0o" + oct(d)[2:]
    return s
N = []
def n(name, spec, rust=None, opts=None): N.append((name, spec, rust, opts))
reprs = [None, None, "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "C"]
lim = {"i8": 127, "u8": 255}
for i in range(48):
    top = R.choice([7, 7, 8, 15, 16, 31, 32, 63, 63, 64, 65, 127, 128, 191, 255])
    rust = R.choice(reprs)
    if rust in lim: top = min(top, lim[rust])
    used, spec, p = set(), [], -1
    for _ in range(R.randrange(1, 11)):
        if R.random() < 0.45 and p + 1 not in used and p + 1 <= top:
            d, imp = p + 1, True
        else:
            free = [x for x in range(top + 1) if x not in used]
            if not free: break
            d, imp = R.choice(free + [max(free)] * 3 + [min(free)]), False
        used.add(d); spec.append((d, imp)); p = d
    m = max(used)
    opts = None
    k = R.randrange(5)
    if k == 0:
        c = [b for b in (8, 16, 32, 64, 128) if m < b]
        if c: opts = f'repr = "u{R.choice(c)}"'
    elif k == 1: opts = 'repr = "array"'
    elif k == 2: opts = "no_ops"
    n(f"N{i}", spec, rust, opts)
for i, d in enumerate([0, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 1000, 65535, 70000]):
    n(f"E{i}", [(d, False)])
    n(f"P{i}", [(d, False), (0, False), (1, True)] if d > 1 else [(d, False), (d + 3, False), (d + 4, True)])
def nwords(spec, opts):
    return 2 if opts and "u128" in opts else (max(d for d, _ in spec) + 64) // 64
o = ["// Generated by tools/gen_types.py; do not edit.", "#![allow(dead_code)]", "use crate::fam::Fam;", "use enumset::EnumSetType;", ""]
for name, spec, rust, opts in N:
    if rust: o.append(f"#[repr({rust})]")
    o.append("#[derive(EnumSetType)]")
    if opts: o.append(f"#[enumset({opts})]")
    o.append(f"pub enum {name} {{ " + ", ".join(f"V{d}" if imp else f"V{d} = {lit(d)}" for d, imp in spec) + " }")
    o.append(f"impl Fam<{nwords(spec, opts)}> for {name} {{ {nth(name, [f"V{d}" for d, _ in spec])} const D: &'static [u32] = &[{', '.join(str(d) for d, _ in spec)}]; }}")
    o.append("const _: () = { " + " ".join(f"assert!({name}::V{d} as u32 == {d});" for d, _ in spec) + " };")
small = [x for x in N if max(d for d, _ in x[1]) < 256]
kan = [f"{a}:{nwords(s, op)}" for i, (a, s, r, op) in enumerate(small) if i % 2 == 0]
tho = [f"{a}:{nwords(s, op)}" for i, (a, s, r, op) in enumerate(small) if i % 2 == 1]
nat2 = [f"{a}:{nwords(s, op)}" for a, s, r, op in N if max(d for d, _ in s) >= 256]
o.append("#[macro_export]\nmacro_rules! on_numbered { ($f:ident) => { $crate::contract_in!(numbered, $f, 40; " + " ".join(kan) + "; " + " ".join(tho) + "; " + " ".join(nat2) + "); }; }")
open("/verif/harness/src/numbered.rs", "w").write("\n".join(o) + "\n")

# ---------------------------------------------------------------- C14/C15: serialized forms
# name, discriminants, options, form ("int", bits) | "array" | "list" | "map"
S = [
    ("Z8", [6, 1, 4, 0], None, 8), ("Z8F", [None]*8, None, 8), ("Z16", [8, 3, 15], None, 16), ("Z32", [16, 0, 30], None, 32),
    ("Z64", [63, 0, 32, 40], None, 64), ("Z128", [127, 0, 63, 64], None, 128), ("Z65", [64, 2], None, 128),
    ("Z7", [7, 3], None, 8), ("Z31", [31, 3], None, 32),
    ("ZA129", [128, 0, 64], None, "array"), ("ZA3", [191, 1, 70, 130], None, "array"), ("ZA4", [255, 0, 63], None, "array"),
    ("ZE8", [6, 0], 'serialize_repr = "u8"', 8), ("ZE16", [6, 0], 'serialize_repr = "u16"', 16), ("ZE32", [6, 0, 31], 'serialize_repr = "u32"', 32),
    ("ZE64", [6, 0, 9], 'serialize_repr = "u64"', 64), ("ZE128", [6, 0, 9], 'serialize_repr = "u128"', 128),
    ("ZR128", [100, 0, 64], 'repr = "array", serialize_repr = "u128"', 128), ("ZRA8", [7, 0], 'repr = "array"', 8),
    ("ZU128A", [100, 0, 64], 'repr = "u128", serialize_repr = "array"', "array"),
    ("ZAr8", [6, 0, 3], 'serialize_repr = "array"', "array"), ("ZAr64", [63, 0, 3], 'serialize_repr = "array"', "array"),
    ("ZL8", [6, 0, 3], 'serialize_repr = "list"', "list"), ("ZL64", [63, 0, 31, 32], 'serialize_repr = "list"', "list"),
    ("ZLA", [150, 0, 63, 64], 'serialize_repr = "list"', "list"),
    ("ZM8", [6, 0, 3], 'serialize_repr = "map"', "map"), ("ZM64", [63, 0, 31], 'serialize_repr = "map"', "map"), ("ZMA", [150, 0, 63], 'serialize_repr = "map"', "map"),
    ("ZLO", [6, 0, 3], 'serialize_as_list', "list"), ("ZMO", [6, 0, 3], 'serialize_as_map', "map"),
    ("ZA17", [1087, 0, 64, 1023], None, "array"), ("ZA9", [575, 0, 100, 320], None, "array"), ("ZA130", [8319, 0, 64, 4095, 4096, 8191], None, "array"),
]
D = [
    ("Y8", [6, 1, 4, 0], "", 8), ("Y8F", [None]*8, "", 8), ("Y16", [8, 3, 15], "", 16), ("Y32", [16, 0, 30], "", 32), ("Y64", [63, 0, 32], "", 64),
    ("Y128", [127, 0, 63, 64], "", 128), ("YH", [64, 100], "", 128), ("YR128", [100, 3], 'repr = "u128",', 128),
    ("YE32", [6, 0], 'serialize_repr = "u32",', 32), ("YE128", [6, 0], 'serialize_repr = "u128",', 128), ("YA128", [6, 0, 70], 'repr = "array", serialize_repr = "u128",', 128),
    ("YA8", [6, 0], 'repr = "array",', 8),
    ("YA3", [191, 1, 70, 130], "", "array"), ("YA4", [255, 0, 63], "", "array"), ("YAr8", [6, 0, 3], 'serialize_repr = "array",', "array"),
    ("YAr64", [63, 0], 'serialize_repr = "array",', "array"), ("YAu128", [100, 0], 'repr = "u128", serialize_repr = "array",', "array"),
    ("YL8", [6, 0, 3], 'serialize_repr = "list",', "list"), ("YM8", [6, 0, 3], 'serialize_repr = "map",', "map"),
    ("YA17", [1087, 0, 64, 1023], "", "array"), ("YA130", [8319, 0, 64, 4095, 4096, 8191], "", "array"),
]
o = ["// Generated by tools/gen_types.py; do not edit.", "#![allow(dead_code, deprecated)]", "use crate::fam::Fam;", "use crate::wire::{Form, Wired};", "use enumset::EnumSetType;", ""]
G = {"int": [], "array": [], "list": [], "map": []}
for deny, lst_ in ((False, S), (True, D)):
    for name, ds, opts, form in lst_:
        res = resolve(ds)
        if deny: opts = opts + " serialize_deny_unknown"
        w = max(2 if opts and 'repr = "u128"' in opts.replace('serialize_repr = "u128"', "") else 1, (max(res) + 64) // 64)
        o.append("#[derive(EnumSetType, Debug)]")
        if opts: o.append(f"#[enumset({opts})]")
        o.append(f"pub enum {name} {{ " + ", ".join(f"V{r}" if d is None else f"V{r} = {r}" for r, d in zip(res, ds)) + " }")
        o.append(f"impl Fam<{w}> for {name} {{ {nth(name, [f"V{r}" for r in res])} const D: &'static [u32] = &[{', '.join(map(str, res))}]; }}")
        f = f"Form::Int({form})" if isinstance(form, int) else f"Form::{form.capitalize()}"
        o.append(f"impl Wired<{w}> for {name} {{ const FORM: Form = {f}; const DENY: bool = {str(deny).lower()}; }}")
        if form in ("list", "map"): o.append(f"crate::wired_variant!({name} {w});")
        G["int" if isinstance(form, int) else form].append((name, w))
o.append("#[macro_export]\nmacro_rules! on_wired {")
SLOW = {"ZA3", "ZA4", "YA3", "YA4", "YAu128", "ZLA", "ZMA"}
def arm(g, l):
    k = [x for x in l if x[1] <= 4 and x[0] not in SLOW]; t_ = [x for x in l if x[1] <= 4 and x[0] in SLOW]; nn = [x for x in l if x[1] > 4]
    o.append(f"    ({g}, $f:ident) => {{ $crate::contract_in!(wired, $f, 40; " + "; ".join(" ".join(f"{n}:{w}" for n, w in z) for z in (k, t_, nn)) + "); };")
for g, l in G.items(): arm(g, l)
arm("all", [x for l in G.values() for x in l])
arm("seqs", G["array"] + G["list"] + G["map"])
o.append("    (native, $f:ident) => { $crate::contract_in!(wired, $f, 40; ; ; " + " ".join(f"{n}:{w}" for l in G.values() for n, w in l) + "); };")
o.append("}")
open("/verif/harness/src/wired.rs", "w").write("\n".join(o) + "\n")
