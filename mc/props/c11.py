"""C11: packed types can never be pin-projected; other representations always can."""
from core import Prog, Prune
import core, itertools

BOUNDS = ("every repr list of <=3 entries over {C, Rust, packed, packed(1|2|4), align(n), transparent, integer types} split over <=3 attributes in every order and position x 16 mechanisms "
          "(direct, raw identifiers, cfg_attr, attribute / function-like macros adding it before, after or behind the derive) x 2 placements x field shapes with the "
          "misalignable field at every position, pinned or not x argument lists; 26 field types x 1..33 fields x pins x styles; layouts of accepted types equal an unannotated twin")
PRE = "use core::marker::PhantomData; use core::pin::Pin; use pin_project::{pin_project, pinned_drop};\n"

# name -> (text before the item incl. pin_project attr `$P`, item `$I`), packed visible or not
MECH = {
    "before": "#[repr($R)] $P $I", "after": "$P #[repr($R)] $I",
    "cfg-before": "#[cfg_attr(all(), repr($R))] $P $I", "cfg-after": "$P #[cfg_attr(all(), repr($R))] $I",
    "cfg2-after": "$P #[cfg_attr(all(), cfg_attr(not(any()), repr($R)))] $I", "cfg-list": "$P #[cfg_attr(all(), allow(unused), repr($R))] $I",
    "macro-before": "#[auxmac::add_repr($R)] $P $I", "macro-after": "$P #[auxmac::add_repr($R)] $I",
    "macro-cfg-before": "#[auxmac::add_cfg_repr($R)] $P $I", "macro-cfg-after": "$P #[auxmac::add_cfg_repr($R)] $I",
    "macro2-before": "#[auxmac::add_repr2($R)] $P $I", "macro2-after": "$P #[auxmac::add_repr2($R)] $I",
    "append-before": "#[auxmac::append_attr(repr($R))] $P $I", "append-after": "$P #[auxmac::append_attr(repr($R))] $I",
    "hidden-after": "$P #[auxmac::append_attr(::auxmac::add_repr($R))] $I", "hidden2-after": "$P #[auxmac::append_attr(::auxmac::add_repr2($R))] $I",
    "hidden-cfg-after": "$P #[auxmac::append_attr(cfg_attr(all(), ::auxmac::add_repr($R)))] $I", "hidden-before": "#[auxmac::append_attr(::auxmac::add_repr($R))] $P $I",
    "macro_rules": "macro_rules! mk { ($($t:tt)*) => { #[repr($R)] $($t)* } } mk! { $P $I }", "macro_rules-in": "macro_rules! mk { ($($t:tt)*) => { $P #[repr($R)] $($t)* } } mk! { $I }",
    "macro_rules-arg": "macro_rules! mk { ($m:meta, $i:item) => { #[$m] $i } } mk! { repr($R), $P $I }", "raw-before": "#[r#repr($R)] $P $I", "raw-after": "$P #[r#repr($R)] $I", "raw-cfg": "$P #[cfg_attr(all(), r#repr($R))] $I", "pass": "auxmac::pass! { $P #[repr($R)] $I }", "between": "#[allow(unused)] $P #[allow(dead_code)] #[repr($R)] #[derive(PartialEq)] $I",
}
VISIBLE = {"before", "after", "cfg-before", "cfg-after", "cfg2-after", "cfg-list", "macro_rules", "macro_rules-in", "macro_rules-arg", "pass", "raw-before", "raw-after", "raw-cfg"}


def shapes(th):
    """(declaration, does it have a field an unaligned packing can misalign)"""
    out = []
    W = ["u32", "T", "(u8, u64)", "[u16; 2]", "Box<T>", "A16"]
    for n in (1, 2, 3):
        for hot in range(n):
            for w in (W if n < 3 or th else W[:2]):
                for pins in itertools.product((0, 1), repeat=n) if th or n < 3 else [tuple(int(i == hot) for i in range(n)), tuple(int(i != hot) for i in range(n)), (0,) * n]:
                    ty = [w if i == hot else ("u8", "bool", "i8")[i] for i in range(n)]
                    if "T" not in w:
                        ty[hot] = w
                    ph = [] if "T" in w else ["PhantomData<T>"]
                    f = [("#[pin] " if p else "") + t for p, t in zip(pins, ty)] + ph
                    out.append("pub struct S<T: PartialEq>(" + ", ".join("pub " + x if not x.startswith("#") else "#[pin] pub " + x[7:] for x in f) + ");")
                    out.append("pub struct S<T: PartialEq> { " + ", ".join(("#[pin] " if x.startswith("#") else "") + f"pub f{i}: " + x.replace("#[pin] ", "") for i, x in enumerate(f)) + " }")
    return list(dict.fromkeys(out))


A16 = "#[derive(PartialEq)] #[repr(align(16))] pub struct A16(u8);\n"
ALIGN1 = ["pub struct S { #[pin] pub f: u8 }", "pub struct S { pub f: u8, pub g: [bool; 3] }", "pub struct S(#[pin] pub u8, pub i8);", "pub struct S(pub ());"]
PACKED1 = ["packed", "packed(1)", "C, packed", "packed, C", "packed(1), C", "C, packed(1)", "Rust, packed"]
PACKEDN = [("packed(2)", ["u32", "u64"]), ("packed(4)", ["u64", "A16"]), ("C, packed(2)", ["u32"]), ("packed(8)", ["A16"])]
ARGS = ["", "(project = SP)", "(project_ref = SR)", "(project_replace)", "(!Unpin)", "(UnsafeUnpin)", "(project = SP, project_ref = SR, project_replace = SO)"]


def build(m, r, args, item):
    return PRE + A16 + MECH[m].replace("$P", f"#[pin_project{args}]").replace("$I", item).replace("$R", r) + "\n"


def run(ctx):
    th = ctx.thorough
    ps = []
    sh = shapes(th)

    def packed(c):
        m = c.pick("mechanism", list(MECH), free=True)
        r = c.pick("repr", PACKED1, free=True)
        s = c.pick("shape", sh if th or (r == "packed" and m in ("after", "before", "hidden-after", "macro-after", "cfg-after")) else sh[:4] + sh[-4:], free=True)
        a = c.pick("args", ARGS if r == "packed" and s in sh[:2] else ARGS[:1], free=True)
        return Prog(build(m, r, a, s), "err", f"packed/{m}/{r}")

    ps += ctx.explore(packed)
    # one misalignable field, of each kind of type, in small and large structs, at every position, in mechanisms the attribute cannot see
    HOT = ["u16", "u128", "f64", "char", "usize", "&'static u8", "*const u8", "fn()", "[u16; 1]", "(u8, u16)", "Option<u16>", "core::num::NonZeroU32", "String", "core::mem::MaybeUninit<u32>", "core::cell::Cell<u32>", "core::mem::ManuallyDrop<u64>", "Al", "core::sync::atomic::AtomicU16", "[Al; 2]", "<u32 as Tr>::A", "id!(u32)", "(u32)", "&'static dyn Send", "&'static str", "&'static mut [u8]", "Option<Box<u8>>", "PhantomData<u8>x"][:-1]
    HEADH = "pub type Al = u64; pub trait Tr { type A; } impl Tr for u32 { type A = u32; } macro_rules! id { ($t:ty) => { $t } }\n"

    def hot(c):
        m = c.pick("mechanism", ["hidden-after", "macro-after", "append-before", "after", "raw-after"] if not th else [x for x in MECH if x != "between"], free=True)
        n = c.pick("fields", [1, 2, 9, 17, 33], free=True)
        h = c.pick("type", HOT if n <= 2 else HOT[:1] + HOT[8:9], free=True)
        at = c.pick("at", [0, n - 1] if not th else [0, n // 2, n - 1], free=True)
        pin = c.pick("pins", ["hot", "cold", "none", "all"], free=True)
        st = c.pick("style", ["named", "tuple"], free=True)
        r = c.pick("repr", ["packed", "C"] if m != "append-before" else ["packed"], free=True)
        fs = []
        for i in range(n):
            p = "#[pin] " if pin == "all" or (pin == "hot") == (i == at) and pin in ("hot", "cold") else ""
            fs.append(p + "pub " + (f"f{i}: " if st == "named" else "") + (h if i == at else "u8"))
        item = "pub struct S { " + ", ".join(fs) + " }" if st == "named" else "pub struct S(" + ", ".join(fs) + ");"
        src = HEADH + build(m, r, "", item)
        return Prog(src, "err" if r == "packed" else "ok", f"hot/{m}/{h}")
    ps += ctx.explore(hot)
    for m in MECH:
        for r, ws in PACKEDN:
            for w in ws:
                for item in (f"pub struct S {{ #[pin] pub f: u8, pub g: {w} }}", f"pub struct S(#[pin] pub {w}, pub u8);", f"pub struct S {{ pub h: u8, #[pin] pub f: u8, #[pin] pub g: {w} }}"):
                    ps.append(Prog(build(m, r, "", item), "err", f"packedN/{m}/{r}"))
        for r in PACKED1 + ["packed(2)", "packed(16)", "r#packed", "C, r#packed(1)"]:
            for item in ALIGN1:
                if m in VISIBLE:
                    ps.append(Prog(build(m, r, "", item), "err", f"visible-align1/{m}/{r}"))
            for item in ("pub enum S { A(#[pin] u8), B }", "pub enum S<T> { A(#[pin] T), B { x: u32 } }"):
                ps.append(Prog(build(m, r, "(project = SP)", item), "err", f"enum/{m}/{r}"))
        # two attributes
        for r1, r2 in (("C", "packed"), ("packed", "C"), ("Rust", "packed"), ("packed(2)", "C")):
            for item in ("pub struct S<T: PartialEq> { #[pin] pub f: T, pub g: u64 }", "pub struct S(pub u8, #[pin] pub u64);") + ((ALIGN1[0], ALIGN1[2]) if m in VISIBLE else ()):
                for fst in (f"#[repr({r1})] ", f"#[cfg_attr(all(), repr({r1}))] "):
                    s = build(m, r2, "", item)
                    ps.append(Prog(s.replace("#[pin_project]", fst + "#[pin_project]", 1), "err", f"two/{m}"))
                    ps.append(Prog(s.replace("#[pin_project]", "#[pin_project] " + fst, 1), "err", f"two/{m}"))
    # every sequence of 2 or 3 representation attributes of which at least one packs, with pin_project anywhere among them
    RA = ["#[repr(C)]", "#[repr(packed)]", "#[repr(Rust)]", "#[cfg_attr(all(), repr(packed))]", "#[cfg_attr(all(), repr(C))]", "#[repr(C, packed)]", "#[repr(packed(1))]", "#[allow(dead_code)]", "#[doc = \"x\"]", "#[repr()]", "#[cfg_attr(any(), repr(packed))]", "#[r#repr(packed)]", "#[repr(r#packed)]"]

    def attrs(c):
        n = c.pick("n", [2, 3], free=True)
        seq = [c.pick(f"a{i}", RA if n == 2 or th else RA[:4] + RA[7:8], free=True) for i in range(n)]
        act = [a for a in seq if "packed" in a and "any()" not in a]
        if not act or (any("Rust" in a for a in seq) and any("(C" in a for a in seq)):
            raise Prune
        pos = c.pick("pin_project at", range(n + 1), free=True)
        item = c.pick("item", ALIGN1 if n == 2 or th else ALIGN1[:1], free=True)
        full = seq[:pos] + ["#[pin_project]"] + seq[pos:]
        return Prog(PRE + A16 + " ".join(full) + " " + item + "\n", "err", "attrs/" + " ".join(full))

    ps += ctx.explore(attrs)
    # with a pinned destructor
    for m in MECH:
        for item in ("pub struct S<T: PartialEq> { #[pin] pub f: T, pub g: u64 }", "pub struct S<T: PartialEq>(pub u32, #[pin] pub T);"):
            pd = "#[pinned_drop] impl<T: PartialEq> PinnedDrop for S<T> { fn drop(self: Pin<&mut Self>) {} }\n"
            b = build(m, "packed", "(PinnedDrop)", item) + pd
            ps.append(Prog(b, "err", f"pinned-drop/{m}"))
            ps.append(Prog(build(m, "C", "(PinnedDrop)", item) + pd, "ok", f"pinned-drop-control/{m}"))
    # spelled strangely
    for r in ("packed = \"1\"", "packed()", "packed(3)", "packed(1, 2)", "packed(\"1\")", "r#packed", "packed,", "packed , packed", "packed(1),"):
        for m in ("before", "after", "cfg-after", "macro-after", "hidden-after"):
            for item in ("pub struct S<T: PartialEq> { #[pin] pub f: T, pub g: u64 }", "pub struct S(pub u32);"):
                ps.append(Prog(build(m, r, "", item), "err", f"odd/{r}"))
    # the same shapes and mechanisms are accepted with a representation that is not packed
    for m in MECH:
        for s in (sh if m in ("after", "hidden-after") or th else sh[:4] + sh[-4:]):
            for r in ("C", "Rust"):
                ps.append(Prog(build(m, r, "", s), "ok", f"control/{m}/{r}"))
    ctx.judge(ps, part="packed", chunk=100)

    # ---- everything else is accepted and keeps its effect
    ok = []
    REPR = ["C", "Rust", "align(1)", "align(2)", "align(8)", "align(64)", "C, align(16)", "align(16), C", "C, align(4)", "align(8), align(4)", "C,", "align(32), Rust"]
    SH = ["pub struct S { #[pin] pub a: u8, pub b: u32, #[pin] pub c: u16, pub d: u64, pub e: u8 }", "pub struct S(pub u8, #[pin] pub u64, pub u16, #[pin] pub u8, pub u32);", "pub struct S { #[pin] pub a: u8 }", "pub struct S(pub u8, pub [u16; 3]);",
          "pub struct S { pub packed: u64, #[pin] pub repr: u8 }"]
    TR = ["pub struct S(#[pin] pub u64);", "pub struct S { pub z: (), #[pin] pub a: u32 }", "pub struct S { #[pin] pub a: [u16; 3], #[pin] pub z: [u8; 0], pub p: PhantomData<u8> }"]
    EN = ["pub enum S { A(#[pin] u8), B { x: u32, #[pin] y: u16 }, C }", "pub enum S { A(#[pin] u64, u8), B }", "pub enum S { A { #[pin] f: u8 } }"]
    ER = ["u8", "i8", "u16", "i32", "u64", "usize", "isize", "C", "C, u8", "u8, C", "Rust", "align(32)", "u8, align(16)", "C, align(8), i16"]
    for m in MECH:
        plain = MECH[m].replace("$P ", "").replace("#[derive(PartialEq)] ", "")
        for items, reprs, enum in ((SH, REPR, False), (TR, ["transparent"], False), (EN, ER, True)):
            for item in items:
                for r in reprs:
                    for a in ((["(project = SP, project_ref = SR)", ""] if enum else ["", "(project_replace)"]) if m in ("after", "hidden-after") or th else ["(project = SP)" if enum else ""]):
                        if r == "C," and m.startswith("macro_rules-arg"):
                            pass
                        twin = "mod twin { use super::*; #[derive(PartialEq)] #[repr(" + r + ")] " + item.replace("#[pin] ", "") + " }\n"
                        chk = "const _: () = assert!(core::mem::size_of::<S>() == core::mem::size_of::<twin::S>() && core::mem::align_of::<S>() == core::mem::align_of::<twin::S>());\n"
                        if not enum and ("C" in r or r == "transparent"):
                            import re
                            fs = re.findall(r"pub (\w+): ", item) or [str(i) for i in range(item.count("pub ") - 1)]
                            chk += "".join(f"const _: () = assert!(core::mem::offset_of!(S, {f}) == core::mem::offset_of!(twin::S, {f}));\n" for f in fs)
                        ok.append(Prog(build(m, r, a, item) + twin + chk, "ok", f"layout/{m}/{r}"))
    for item in ("#[cfg_attr(any(), repr(packed))] $P pub struct S(#[pin] u32);", "$P #[cfg_attr(any(), repr(packed))] pub struct S<T>(#[pin] T);", "#[doc = \"repr(packed)\"] $P /// #[repr(packed)]\npub struct S(#[pin] u32);",
                 "$P pub struct packed { #[pin] packed: u32 }", "$P pub struct S<packed> { #[pin] packed: packed }", "mod packed { pub type C = u32; } $P pub struct S(#[pin] packed::C);", "$P #[repr(C)] pub struct S { #[doc = \"packed\"] #[pin] repr: u32 }",
                 "#[repr(packed)] pub struct Pk(u8, u64); $P pub struct S { #[pin] f: Pk, g: Pk }", "#[repr(C, packed(2))] pub struct Pk<T>(u8, T); $P #[repr(C)] pub struct S<T> { #[pin] f: Pk<T>, g: u32 }", "#[repr(packed)] pub struct Pk<T>(T); $P(project = SP) pub enum S<T> { A(#[pin] Pk<T>), B(Pk<u32>) }",
                 "$P #[auxmac::identity(repr(packed))] pub struct S<T>(#[pin] T);", "#[auxmac::identity(packed)] $P pub struct S<T>(#[pin] T);", "$P pub struct S(#[pin] A<packed>); pub struct A<T>(T); pub struct packed;"):
        ok.append(Prog(PRE + item.replace("$P(", "#[pin_project(").replace("SP)", "SP)]") if "$P(" in item else PRE + item.replace("$P", "#[pin_project]"), "ok", "not-packed"))
    # an inner packed field type never makes the outer one packed; the outer stays rejected if packed itself
    for item in ("#[repr(packed)] pub struct Pk(u8, u64); $P #[repr(packed)] pub struct S { #[pin] f: Pk, g: u32 }",):
        ok.append(Prog(PRE + item.replace("$P", "#[pin_project]"), "err", "packed-of-packed"))
    ctx.judge(ok, part="not-packed", chunk=100)
