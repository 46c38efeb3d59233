"""C16: annotating a type does not change the type itself (twin comparison; the compiler on the unannotated twin is the oracle)."""
from core import Prog, Prune
import core, itertools, re

BOUNDS = ("20 item forms x argument lists x ~90 client programs (construction, patterns, moves, borrows, variance, drop check, derives, auto traits, layout, "
          "attributes, coercions, privacy), each compiled against the annotated item and its unannotated twin; all field-type pairs for the auto traits and layout of both")
PRE = "use core::marker::{PhantomData, PhantomPinned}; use core::pin::Pin; use core::cell::Cell; use std::rc::Rc; use pin_project::{pin_project, pinned_drop};\n"

# $P attribute, $p #[pin]; ty: instantiated type; mk: constructor; pat: full pattern binding a, b; A/B: place expressions of the fields on `s`
ITEMS = [
    dict(n="named", d="$P pub struct S<T> { $p pub a: T, pub b: String }", ty="S<String>", mk="S { a: String::new(), b: String::new() }", pat="S { a, b }", A="s.a", B="s.b", g="T"),
    dict(n="named2", d="$P pub struct S<T> { pub a: T, $p pub b: String }", ty="S<String>", mk="S { a: String::new(), b: String::new() }", pat="S { a, b }", A="s.a", B="s.b", g="T"),
    dict(n="tuple", d="$P pub struct S<T>($p pub T, pub String);", ty="S<String>", mk="S(String::new(), String::new())", pat="S(a, b)", A="s.0", B="s.1", g="T"),
    dict(n="tuple2", d="$P pub struct S<T>(pub T, $p pub String) where T: Sized;", ty="S<String>", mk="S(String::new(), String::new())", pat="S(a, b)", A="s.0", B="s.1", g="T"),
    dict(n="both", d="$P pub struct S<T> { $p pub a: T, $p pub b: String }", ty="S<String>", mk="S { a: String::new(), b: String::new() }", pat="S { a, b }", A="s.a", B="s.b", g="T"),
    dict(n="none", d="$P pub struct S<T> { pub a: T, pub b: String }", ty="S<String>", mk="S { a: String::new(), b: String::new() }", pat="S { a, b }", A="s.a", B="s.b", g="T"),
    dict(n="enum", d="$P pub enum S<T> { V { $p a: T, b: String }, W($p T), U }", ty="S<String>", mk="S::V { a: String::new(), b: String::new() }", pat="S::V { a, b }", g="T", enum=1),
    dict(n="enum1", d="$P pub enum S<T> { V($p T, String) }", ty="S<String>", mk="S::V(String::new(), String::new())", pat="S::V(a, b)", g="T", enum=1),
]
ARGS_S = ["", "(!Unpin)", "(UnsafeUnpin)", "(project = SP, project_ref = SR)", "(project_replace)", "(project = SP, project_replace = SO, !Unpin)"]
ARGS_E = ["", "(!Unpin)", "(UnsafeUnpin)", "(project = SP, project_ref = SR)", "(project_replace = SO)", "(project = SP, project_ref = SR, project_replace = SO)"]

# client code; $T instantiated type, $M constructor, $Q pattern, $A/$B fields
PROBES = [
    "fn t() -> $T { $M }", "fn t(s: $T) -> String { let $Q = s else { return String::new() }; drop(a); b }", "fn t(s: $T) -> String { match s { $Q => a, #[allow(unreachable_patterns)] _ => String::new() } }", "fn t(s: &$T) -> usize { match s { $Q => a.len() + b.len(), #[allow(unreachable_patterns)] _ => 0 } }",
    "fn t(s: &mut $T) { match s { $Q => { core::mem::swap(a, b) } #[allow(unreachable_patterns)] _ => {} } }", "fn t(s: $T) { let $Q = s; }", "fn t(s: $T) { if let $Q = s { drop((b, a)) } }", "fn t(s: $T) { match s { $Q => {} } }", "fn t(s: $T) -> $T { let x = s; x }", "fn t(s: $T) -> ($T, $T) { (s, s) }",
    "fn t(s: &$T) -> $T { *s }", "fn t(s: $T) -> Box<$T> { Box::new(s) }", "fn t(s: Pin<Box<$T>>) -> $T { *s }", "fn t(s: Box<$T>) -> $T { *s }", "fn t(mut s: $T) { s = $M; let _ = &s; }", "const X: usize = core::mem::size_of::<$T>();", "const fn t(s: &$T) -> &$T { s }", "const fn t(s: $T) -> $T { s }",
    "const fn t(s: $T) { core::mem::forget(s) }", "const fn t(s: $T) {}", "static mut X: Option<$T> = None;", "static X: Option<$T> = None;", "const X: Option<$T> = None;", "const X: $T = $M;", "fn t() { thread_local! { static X: core::cell::RefCell<Option<$T>> = Default::default(); } }",
    "fn t(s: $T) { std::thread::spawn(move || drop(s)); }", "fn t(s: std::sync::Arc<$T>) { std::thread::spawn(move || drop(s)); }", "fn t(s: $T) -> Box<dyn core::any::Any> { Box::new(s) }", "fn t(s: $T) { let _ = std::panic::catch_unwind(move || drop(s)); }", "fn t(s: &mut $T) { let _ = std::panic::catch_unwind(move || drop(s)); }", "fn t(s: $T) { let c = || drop(s); c(); c(); }",
    "fn t<X>(s: S<X>) -> S<X> { s }", "fn t<X: ?Sized>(s: S<X>) {}", "fn t<X>(s: S<&X>) {}", "fn t(s: S<u8, u8>) {}", "fn t(s: S) {}", "fn t<'a>(s: S<&'static str>) -> S<&'a str> { s }", "fn t<'a>(s: S<&'a str>) -> S<&'static str> { s }", "fn t<'a>(s: S<fn(&'a str)>) -> S<fn(&'static str)> { s }", "fn t<'a, 'b>(s: &'b S<&'static str>) -> &'b S<&'a str> { s }",
    "fn t<'a>(s: &mut S<&'static str>, x: &'a str) -> &mut S<&'a str> { s }", "fn t<'a>(s: S<Cell<&'static str>>) -> S<Cell<&'a str>> { s }", "fn t() { let x; let s: Option<S<&u8>>; x = 1u8; s = None::<S<&u8>>.or(None); let _ = (&x, &s); }", "impl<T> Clone for S<T> { fn clone(&self) -> Self { loop {} } }", "impl<T: Copy> Copy for S<T> {} impl<T: Copy> Clone for S<T> { fn clone(&self) -> Self { *self } }",
    "impl<T> core::fmt::Debug for S<T> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }", "impl<T> core::ops::Deref for S<T> { type Target = u8; fn deref(&self) -> &u8 { &1 } }", "impl<T> S<T> { pub fn new() -> Self { loop {} } fn get(&self) -> &Self { self } }", "impl<T> Default for S<T> { fn default() -> Self { loop {} } }", "impl<T> From<T> for S<T> { fn from(t: T) -> Self { loop {} } }",
    "unsafe impl<T> Send for S<T> {} unsafe impl<T> Sync for S<T> {}", "trait Q { fn q(&self) {} } impl<T> Q for S<T> {} fn t(s: &S<u8>) { s.q() } fn t2(s: S<u8>) -> Box<dyn Q> { Box::new(s) }", "trait Q { fn q(&self) {} } impl<X> Q for X {} fn t(s: S<u8>) { s.q() }", "trait Q { fn drop(&self) {} } impl<T> Q for S<T> {} fn t(s: S<u8>) { s.drop() }",
    "fn t(x: impl Fn() -> $T) -> $T { x() }", "fn t(v: Vec<$T>) -> usize { v.iter().map(|$Q| a.len()).sum() }", "fn t(v: Vec<$T>) -> Vec<String> { v.into_iter().filter_map(|s| match s { $Q => Some(b), #[allow(unreachable_patterns)] _ => None }).collect() }", "fn t(s: core::mem::ManuallyDrop<$T>) -> $T { core::mem::ManuallyDrop::into_inner(s) }", "fn t(s: core::mem::MaybeUninit<$T>) { unsafe { s.assume_init(); } }",
    "const _: () = assert!(core::mem::needs_drop::<$T>());", "const _: () = assert!(!core::mem::needs_drop::<S<u8>>());", "fn t(s: &$T) -> core::mem::Discriminant<$T> { core::mem::discriminant(s) }", "fn t(x: Option<$T>) -> bool { matches!(x, Some($Q)) }", "type A<X> = S<X>; fn t() -> A<String> { $M }", "use self::S as Renamed; fn t(s: Renamed<String>) -> $T { s }",
    "pub mod m { pub use super::S; pub fn t(s: S<u8>) {} }", "macro_rules! mk { () => { $M } } fn t() -> $T { mk!() }", "union Un { s: core::mem::ManuallyDrop<$T>, u: u8 }", "fn t(s: $T) -> impl Sized { s }", "async fn t(s: $T) -> $T { core::future::ready(()).await; s }", "fn is_send<X: Send>(x: X) {} fn t(s: $T) { is_send(async move { core::future::ready(()).await; drop(s) }) }",
    "fn t(s: *const $T) -> *const u8 { s.cast() }", "fn t(s: &$T) -> &[$T] { core::slice::from_ref(s) }", "fn t<X>(s: S<X>) where S<X>: Sized {}", "fn t<X>() where S<X>: Copy {} fn u() { t::<u8>() }", "fn t<X>() where S<X>: Drop {} fn u() { t::<u8>() }", "fn t(s: S<[u8]>) {}", "fn t(s: &S<dyn Send>) {}", "const A: fn() -> $T = || $M;",
]
STRUCT_PROBES = [
    "fn t(s: $T) -> String { $A }", "fn t(s: $T) -> (String, String) { ($A, $B) }", "fn t(s: $T) -> (String, String) { let y = $B; ($A, y) }", "fn t(s: $T) -> String { drop($A); $B }", "fn t(s: $T) -> $T { drop($A); s }", "fn t(mut s: $T) -> $T { drop($A); $A = String::new(); s }", "fn t(s: &$T) -> (&String, &String) { (&$A, &$B) }",
    "fn t(s: &mut $T) -> (&mut String, &mut String) { (&mut $A, &mut $B) }", "fn t(s: &mut $T) { core::mem::swap(&mut $A, &mut $B) }", "fn t(s: &$T) -> String { $A }", "fn t(s: Pin<Box<$T>>) -> usize { $A.len() + $B.len() }", "fn t(s: Pin<&$T>) -> &String { &s.get_ref()$A1 }", "fn t(mut s: $T) { $A = String::new(); $B.push('x'); }", "fn t(s: Box<$T>) -> String { $A }", "fn t(s: $T) { let c = || drop($A); c(); let _ = &$B; }",
    "fn t(s: $T) { let c = move || drop($A); c(); drop($B); }", "const O: usize = core::mem::offset_of!($T, $F);", "fn t(s: std::rc::Rc<$T>) -> String { $A.clone() }", "fn t(s: &$T) -> *const String { core::ptr::addr_of!($B) }", "fn t(s: &mut $T) { let a = &mut $A; let b = &$B; a.push_str(b); }", "fn t(s: &mut $T) { let a = &mut $A; let b = &$A; a.push_str(b); }", "fn t<'a>(x: &'a u8) -> S<&'a u8> where { let y: S<&'a u8> = loop {}; y }",
]
NAMED_PROBES = ["fn t(s: $T) -> $T { S { a: String::new(), ..s } }", "fn t(s: $T) -> $T { S { ..s } }", "fn t(s: $T) -> String { let S { a, .. } = s; a }", "fn t(s: &$T) { let S { ref a, .. } = *s; }", "fn t(S { b, a }: $T) -> String { a }", "fn t() -> $T { S { b: String::new(), a: String::new() } }", "fn t() -> $T { S { a: String::new() } }", "fn t() -> $T { S { a: String::new(), b: String::new(), c: 1 } }", "fn t(s: $T) { s.c }", "const S: u8 = 1;", "fn S() {}"]
TUPLE_PROBES = ["fn t() -> Option<$T> { Some(String::new()).map(|x| S(x, String::new())) }", "const F: fn(String, String) -> $T = S;", "fn t() -> $T { S { 0: String::new(), 1: String::new() } }", "fn t(s: $T) -> String { let S(a, ..) = s; a }", "fn t(s: $T) -> String { let S { 1: x, .. } = s; x }", "fn t() -> $T { S(String::new()) }", "const S: u8 = 1;", "fn S() {}", "fn t(s: $T) { s.2 }"]
ENUM_PROBES = ["use self::S::*; fn t(s: $T) -> bool { matches!(s, V { .. }) }", "fn t(s: &$T) -> bool { matches!(s, S::V { .. }) }", "const F: fn(String) -> $T = S::W;", "fn t(s: $T) { match s { S::V { .. } => {} } }", "fn t(s: $T) { match s { S::V { .. } => {}, S::W(..) => {}, S::U => {} } }", "fn t(s: S<core::convert::Infallible>) { match s { S::V { .. } => {} } }", "const X: S<u8> = S::U;", "fn t(s: &S<u8>) -> i32 { *s as i32 }", "impl<T> S<T> { const NEW: Self = Self::U; }"]


def probes(it):
    ps = list(PROBES)
    if it.get("enum"):
        ps += ENUM_PROBES
    else:
        ps += STRUCT_PROBES + (NAMED_PROBES if it["n"][0] in "bn" else TUPLE_PROBES)
    return ps


def fill(it, p):
    A = it.get("A", "s.x")
    return (p.replace("$A1", A[1:]).replace("$T", it["ty"]).replace("$M", it["mk"]).replace("$Q", it["pat"]).replace("$A", A).replace("$B", it.get("B", "s.y")).replace("$F", A[2:]))


def twin(d):
    return d.replace("$P ", "").replace("$p ", "")


def pair(ctx, progs, part):
    """progs: list of (twin source, annotated source, tag); the twin's verdict is the expectation"""
    tw = {}
    for t, a, tag in progs:
        tw.setdefault(t, Prog(t, "ok", tag))
    core.judge(ctx.deps(), list(tw.values()), confirm_max=10 ** 6, chunk=100)
    out = [Prog(a, tw[t].verdict, tag) for t, a, tag in progs]
    # same crate text in both verdict classes keeps "rejected" meaningful: report how many of each
    ctx.part(part + ":twins", len(tw))
    ctx.judge(out, part=part, chunk=100)


# ---- reflection: what other macros see of the annotated item is what they see of the twin
R_ITEM = ["/// one", "/// two", "#[doc = \"three\"]", "#[doc(alias = \"x\")]", "#[allow(dead_code)]", "#[must_use]", "#[repr(C)]", "#[non_exhaustive]", "#[deprecated(note = \"n\")]", "#[rustfmt::skip]", "#[cfg(all())]", "#[cfg_attr(all(), allow(unused), doc = \"c\")]", "#[derive(Clone)]", "#[derive(Debug, PartialEq)]", "#[auxmac::identity]"]
R_FIELD = ["/// one", "/// two", "#[doc = \"three\"]", "#[allow(unused)]", "#[cfg(all())]", "#[cfg_attr(all(), allow(unused), doc = \"c\")]", "#[rustfmt::skip]", "#[deprecated]", "#[cfg_attr(any(), pin)]", "#[serde(skip)]"][:9]
R_DECL = ["pub struct S { $p pub a: u8, pub(crate) b: u16 }", "struct S($p u8, pub u16);", "pub(in crate) enum S { V { $p a: u8 }, W($p u16, u8), U, X {}, Y() }", "pub(crate) struct S<'a, 'b: 'a, T: ?Sized + Clone2<T> + 'a, const N: usize = 3> where &'a T: Sized, for<'x> &'x u8: Copy, { $p a: &'a &'b u8, b: PhantomData<T> }",
          "struct S<T = Vec<u8>, U: Iterator<Item = T> = std::vec::IntoIter<T>>($p T, U);", "struct S<T>($p T) where T: Sized, Vec<T>: Sized;", "struct r#type<r#T> { $p r#fn: r#T, r#match: (r#T,) }", "struct S { $p a: fn(&u8, Option<&mut [u8]>) -> &'static str, b: for<'x> unsafe extern \"C\" fn(&'x u8) -> &'x u8 }",
          "struct S<const A: bool, const B: char, const C: i8> { $p a: [u8; { 1 + 2 * 3 }], b: [(); 0x1F_usize], c: Box<dyn Fn(u8) -> u8 + Send + 'static> }", "enum S<T> { A, B($p T), C { x: Option<Box<S<T>>>, $p y: [T; 2] }, D }", "struct S { $p a: <Vec<u8> as IntoIterator>::Item, b: <u8 as core::str::FromStr>::Err }",
          "struct S { $p a: ((u8)), b: (((u8), u8)), c: () }", "struct S<T: Clone2<T>>($p T, *const T, *mut [T], &'static mut T, !) where T: 'static;".replace(", !", ""), "pub struct S { $p pub(self) a: u8, pub(super) b: u8, pub(in crate) c: u8 }", "struct S<T, U>($p T, $p U, $p PhantomData<(T, U)>) where (T, U): Sized;",
          "struct S { $p a: mty!(u8), b: Vec<mty!((u8, u8))>, c: [u8; mty!(3)] }", "struct S<'pin, T>($p &'pin T, T);", "enum S<'pin, 'a> { A { $p a: &'pin u8, b: &'a u8 } }", "struct S<T: Clone2<[u8; 3]> + ?Sized> { a: u8, $p t: T }", "struct S { a: u8, $p t: [u8] }", "struct S { $p a: Option<fn(Self) -> Self>, b: Vec<Self>, c: *const Self }"]


def reflect(ctx):
    th = ctx.thorough
    HEAD = "pub use core::marker::PhantomData; pub use pin_project::pin_project; pub trait Clone2<T: ?Sized> {} #[allow(unused_macros)] macro_rules! mty { ($($t:tt)*) => { $($t)* } }\n"
    out = []

    def add(tag, ann, tw):
        out.append(Prog(HEAD + f"pub mod an {{ use super::*; {ann} }}\npub mod tw {{ use super::*; {tw} }}\nconst _: () = assert!(mcrt::str_eq(an::REFLECT, tw::REFLECT));\n", "ok", tag))

    def seqs(al, n):
        for k in range(n + 1):
            yield from itertools.permutations(al, k)
    nl = lambda xs: "".join(x + "\n" for x in xs)
    full = "(project = SP, project_ref = SR, project_replace = SO)"
    DR, AT = "#[derive(auxmac::Reflect)]", "#[auxmac::reflect]"
    # attributes of the item
    for s in seqs(R_ITEM, 3 if th else 2):
        for pos in range(len(s) + 1):
            for dn, d in enumerate(R_DECL[:3]):
                if len(s) == 3 and dn:
                    continue
                tw, an = d.replace("$p ", ""), d.replace("$p", "#[pin]")
                a = "#[pin_project" + (full if dn == 2 else "") + "]"
                x = list(s)
                x.insert(pos, a)
                # behind everything, and (for derives) in front of everything
                add("tokens/item/derive", nl(x + [DR]) + an, nl(list(s) + [DR]) + tw)
                add("tokens/item/derive-first", nl([DR] + x) + an, nl([DR] + list(s)) + tw)
                add("tokens/item/attribute", nl(x + [AT]) + an, nl(list(s) + [AT]) + tw)
    # attributes of fields and variants
    for s in seqs(R_FIELD, 3 if th else 2):
        for pos in range(len(s) + 1):
            x = list(s)
            x.insert(pos, "#[pin]")
            for an, tw in ((f"struct S {{ {nl(x)} pub a: u8, {nl(s)} b: u8 }}", f"struct S {{ {nl(s)} pub a: u8, {nl(s)} b: u8 }}"), (f"struct S(u16, {nl(x)} pub u8, {nl(s)} u8);", f"struct S(u16, {nl(s)} pub u8, {nl(s)} u8);"),
                           (f"enum S {{ {nl(s)} A, {nl(s)} B {{ {nl(x)} a: u8 }}, {nl(s)} C({nl(s)} u8, {nl(x)} u16) }}", f"enum S {{ {nl(s)} A, {nl(s)} B {{ {nl(s)} a: u8 }}, {nl(s)} C({nl(s)} u8, {nl(s)} u16) }}")):
                for r in (DR, AT):
                    add("tokens/field", nl(["#[pin_project" + (full if "enum" in an else "") + "]", r]) + an, nl([r]) + tw)
    # the declaration itself
    for d in R_DECL:
        tw, an = d.replace("$p ", ""), d.replace("$p", "#[pin]")
        for a in (ARGS_E if "enum" in d else ARGS_S) + ["(PinnedDrop)"]:
            if "project_replace" in a and ("[u8] }" in d or "?Sized> {" in d):
                continue
            pd = ""
            if "PinnedDrop" in a:
                if re.search(r"\b(struct|enum) (\S*<|r#)", d) or "fn(Self)" in d:
                    continue
                n = "S"
                pd = f" #[pin_project::pinned_drop] impl PinnedDrop for {n} {{ fn drop(self: core::pin::Pin<&mut Self>) {{}} }}"
            for r in (DR, AT):
                add("tokens/declaration", nl(["#[pin_project" + a + "]", r]) + an + pd, nl([r]) + tw)
                add("tokens/declaration", nl(["#[allow(dead_code)]", r, "#[pin_project" + a + "]"]) + an + pd, nl(["#[allow(dead_code)]", r]) + tw)
    ctx.judge(out, part="tokens", chunk=80)


def run(ctx):
    th = ctx.thorough
    progs = []

    def client(c):
        it = c.pick("item", ITEMS, free=True)
        p = c.pick("probe", probes(it), free=True)
        a = c.pick("args", (ARGS_E if it.get("enum") else ARGS_S), free=True)
        if not th and a not in ("", "(project = SP, project_replace = SO, !Unpin)", "(project = SP, project_ref = SR, project_replace = SO)") and it["n"] not in ("named", "enum"):
            raise Prune
        t = PRE + twin(it["d"]) + "\n" + fill(it, p) + "\n"
        s = PRE + it["d"].replace("$P", f"#[pin_project{a}]").replace("$p", "#[pin]") + "\n" + fill(it, p) + "\n"
        return (t, s, f"client/{it['n']}{a}/{p[:60]}")
    progs += ctx.explore(client)

    # derives and other attributes, before and after
    ATT = ["#[derive(Clone)]", "#[derive(Clone, Copy)]", "#[derive(Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]", "#[derive(Default)]", "#[derive(Clone)] #[derive(Debug)]", "#[must_use]", "#[must_use = \"x\"]", "#[deprecated]", "#[non_exhaustive]", "#[doc(hidden)]", "/// doc\n", "#[allow(non_camel_case_types)]", "#[repr(C)]", "#[derive(auxnope::X)]",
           "#[cfg_attr(all(), derive(Clone))]", "#[automatically_derived]", "#[cold]", "#[rustfmt::skip]", "#[derive(PartialEq)] #[derive(Eq)]", "#[auxmac::identity]"]
    DECL = ["struct S<T> { $p a: T, b: u8 }", "struct S<T>($p T, u8);", "enum S<T> { V { $p a: T }, W(u8), U }", "struct S<'a, T: 'a> { $p a: &'a T, b: PhantomData<T> }", "struct S<T: Clone, const N: usize>($p [T; N]);", "struct S<T = u8> where T: Clone { $p a: T }", "enum S<T> { #[allow(unused)] V($p T), /** d */ W { x: T } }", "struct S<T> { #[allow(unused)] $p a: T, /// d\n b: u8 }"]
    USE = ["", "fn t(s: &S<u8>) -> S<u8> { s.clone() }", "fn t(s: S<u8>) -> (S<u8>, S<u8>) { (s, s) }", "fn t(s: &S<u8>) -> bool { s == s && s < s }", "fn t(s: &S<u8>) { println!(\"{:?}\", s) }", "fn t() -> S<u8> { Default::default() }", "fn t(s: S<u8>) { use std::collections::*; let mut h = HashSet::new(); h.insert(s); }", "#[deny(unused_must_use)] fn u() -> S<u8> { loop {} } #[deny(unused_must_use)] fn t() { u(); }",
           "#[deny(deprecated)] fn t(s: S<u8>) {}", "fn t(s: S<[u8; 3]>) -> S<[u8; 3]> { s.clone() }", "fn t(s: &S<'_, u8>) -> S<'_, u8> { s.clone() }", "fn t(s: &S<u8, 4>) -> S<u8, 4> { s.clone() }"]
    for a in ATT:
        for d in DECL:
            for u in USE:
                for args in (["", "(!Unpin)"] if th else [""]):
                    if not th and u in USE[9:10] and "derive" not in a:
                        continue
                    t = PRE + f"{a} {d}\n{u}\n".replace("$p ", "")
                    for order in (f"{a} #[pin_project{args}] {d}", f"#[pin_project{args}] {a} {d}"):
                        progs.append((t, PRE + order.replace("$p", "#[pin]") + "\n" + u + "\n", f"attrs/{a}/{d[:24]}"))
    # drop check, variance and lifetimes
    D2 = ["struct S<'a, T> { $p x: &'a T, y: T }", "struct S<'a, T>(&'a T, $p T);", "struct S<'a, T> { $p x: Cell<&'a T>, y: u8 }", "enum S<'a, T> { A($p &'a T), B(T) }", "struct S<'a, T> { $p x: fn(&'a T), y: PhantomData<T> }", "struct S<'a, T> { $p x: &'a mut T }", "struct S<'a, T: ?Sized> { $p x: &'a T, y: PhantomData<*mut T> }", "struct S<'a, T> { x: fn(T) -> T, $p y: &'a u8 }", "struct S<'a, T> { $p x: PhantomData<&'a T>, z: Vec<T> }",
          "struct S<'a, T> { x: *const T, $p y: *mut &'a T }"]
    U2 = ["fn t<'x, 'y: 'x>(s: S<'y, u8>) -> S<'x, u8> { s }", "fn t<'x, 'y: 'x>(s: S<'x, u8>) -> S<'y, u8> { s }", "fn t<'x, 'y: 'x>(s: S<'x, &'y u8>) -> S<'x, &'x u8> { s }", "fn t<'x, 'y: 'x>(s: S<'x, &'x u8>) -> S<'x, &'y u8> where { s }", "fn t<'x>(s: S<'x, u8>) -> Box<dyn core::any::Any> { Box::new(s) }", "fn t(s: S<'_, u8>) -> &'static u8 { loop { let _ = &s; } }",
          "fn mk<'a, T>(_: &'a T) -> S<'a, T> { loop {} } fn t() { let (x, s); x = 5u8; s = mk(&x); }", "fn mk<'a, T>(_: &'a T) -> S<'a, T> { loop {} } fn t() { let s; { let x = 5u8; s = mk(&x); } }", "fn mk<'a, T>(_: &'a T) -> S<'a, T> { loop {} } fn t() { let x = 5u8; let s = mk(&x); drop(x); drop(s); }", "fn mk<'a, T>(_: &'a T) -> S<'a, T> { loop {} } fn t() { let s; { let x = 5u8; s = mk(&x); } drop(s); }",
          "struct Sr<'a>(Option<Box<S<'a, Sr<'a>>>>, Cell<Option<&'a Sr<'a>>>);", "fn is<X: 'static>(_: X) {} fn t(s: S<'static, u8>) { is(s) }", "fn t<T>(s: S<'_, T>) { fn is<X: 'static>(_: X) {} is(s) }", "fn t<'a, 'b>(s: &'b S<'a, u8>) -> &'a S<'a, u8> { loop { let _ = s; } }", "trait Tr { fn f(&self) {} } impl<T> Tr for S<'_, T> {} fn t<'a>(s: S<'a, u8>) -> Box<dyn Tr + 'a> { Box::new(s) }"]
    for d in D2:
        for u in U2:
            for a in ("", "(!Unpin)", "(project = SP, project_ref = SR)", "(UnsafeUnpin)") if th else ("", "(project = SP, project_ref = SR)"):
                progs.append((PRE + d.replace("$p ", "") + "\n" + u + "\n", PRE + f"#[pin_project{a}] " + d.replace("$p", "#[pin]") + "\n" + u + "\n", f"lifetimes/{d[:40]}"))
    # unsizing coercions
    D3 = ["struct S<T: ?Sized> { a: u8, $p t: T }", "struct S<T: ?Sized>(u8, $p T);", "struct S<T: ?Sized> { $p a: u8, t: T }", "struct S<T: ?Sized>(T);", "struct S<T> { a: u8, $p t: T }"]
    U3 = ["fn t(s: &S<[u8; 3]>) -> &S<[u8]> { s }", "fn t(s: Box<S<u8>>) -> Box<S<dyn Send>> { s }", "fn t(s: Pin<Box<S<u8>>>) -> Pin<Box<S<dyn Send>>> { s }", "fn t(s: std::rc::Rc<S<[u8; 2]>>) -> std::rc::Rc<S<[u8]>> { s }", "fn t(s: &S<str>) -> usize { core::mem::size_of_val(s) }", "fn t(s: S<str>) {}", "fn t(s: &S<[u8]>) -> &S<[u8; 3]> { s }"]
    for d in D3:
        for u in U3:
            for a in ("", "(!Unpin)", "(UnsafeUnpin)", "(project = SP)"):
                progs.append((PRE + d.replace("$p ", "") + "\n" + u + "\n", PRE + f"#[pin_project{a}] " + d.replace("$p", "#[pin]") + "\n" + u + "\n", f"unsize/{d[:40]}"))
    # privacy of fields, variants, constructors
    for fv in ("", "pub", "pub(crate)", "pub(super)", "pub(self)", "pub(in crate)"):
        for iv in ("", "pub", "pub(crate)", "pub(super)", "pub(self)"):
            for d, uses in ((f"{iv} struct S {{ $p {fv} a: u8, pub b: u8 }}", ["fn t(s: m::n::S) -> u8 { s.a }", "fn t(s: m::n::S) -> u8 { s.b }", "fn t() -> m::n::S { m::n::S { a: 1, b: 2 } }", "fn t(m::n::S { a, b }: m::n::S) {}"]), (f"{iv} struct S($p {fv} u8, pub u8);", ["fn t(s: m::n::S) -> u8 { s.0 }", "fn t() { let _ = m::n::S; }", "fn t() { let _ = m::n::S(1, 2); }", "fn t(m::n::S(a, ..): m::n::S) {}"])):
                for u in uses + [x.replace("m::n::", "n::") for x in uses[:2]]:
                    if "m::n::" in u:
                        f = lambda x: PRE + f"pub mod m {{ pub mod n {{ use super::super::*; {x} }} }}\n{u}\n"
                    else:
                        f = lambda x: PRE + f"pub mod m {{ use super::*; pub mod n {{ use super::super::*; {x} }} {u} }}\n"
                    for a in ("", "(project_replace)"):
                        progs.append((f(d.replace("$p ", "")), f(f"#[pin_project{a}] " + d.replace("$p", "#[pin]")), "privacy"))
    pair(ctx, progs, "clients")

    reflect(ctx)

    # ---- layout and auto traits of both in one program
    FT = ["u8", "u32", "Rc<u8>", "Cell<u8>", "*const u8", "&'static mut u8", "Box<u8>", "PhantomPinned", "std::sync::MutexGuard<'static, u8>", "Option<Box<u8>>", "bool", "(u8, u64)", "core::num::NonZeroU8", "Vec<u8>", "dyn_", "core::cell::UnsafeCell<u16>", "[u64; 0]", "fn()", "core::sync::atomic::AtomicU8", "String"]
    FT = [x for x in FT if x != "dyn_"]
    TRAITS = ["Send", "Sync", "core::panic::UnwindSafe", "core::panic::RefUnwindSafe", "Copy", "Clone", "Drop"]
    lay = []

    def layout(c):
        k = c.pick("kind", ["named", "tuple", "enum"], free=True)
        x = c.pick("x", FT, free=True)
        y = c.pick("y", FT if th or k != "tuple" else FT[::3], free=True)
        m = c.pick("pins", [("$p ", ""), ("", "$p "), ("$p ", "$p "), ("", "")] if th or k == "named" else [("$p ", ""), ("", "$p ")], free=True)
        a = c.pick("args", (ARGS_E[3:5] if k == "enum" else ["", "(project_replace)"]) if not th else (ARGS_E if k == "enum" else ARGS_S), free=True)
        d = {"named": f"pub struct S {{ {m[0]}pub a: {x}, {m[1]}pub b: {y} }}", "tuple": f"pub struct S({m[0]}pub {x}, {m[1]}pub {y});", "enum": f"pub enum S {{ A({m[0]}{x}), B {{ {m[1]}y: {y} }}, C }}"}[k]
        s = PRE + f"pub mod an {{ use super::*; #[pin_project{a}] {d.replace('$p', '#[pin]')} }} pub mod tw {{ use super::*; {d.replace('$p ', '')} }}\n"
        s += "const _: () = assert!(core::mem::size_of::<an::S>() == core::mem::size_of::<tw::S>() && core::mem::align_of::<an::S>() == core::mem::align_of::<tw::S>() && core::mem::size_of::<Option<an::S>>() == core::mem::size_of::<Option<tw::S>>() && core::mem::needs_drop::<an::S>() == core::mem::needs_drop::<tw::S>());\n"
        if k != "enum":
            for f in (("a", "b") if k == "named" else ("0", "1")):
                s += f"const _: () = assert!(core::mem::offset_of!(an::S, {f}) == core::mem::offset_of!(tw::S, {f}));\n"
        for t in TRAITS:
            s += f"const _: () = assert!(mcrt::probe!({t}, an::S) == mcrt::probe!({t}, tw::S));\n"
        return Prog(s, "ok", f"layout/{k}/{x}/{y}")
    ctx.judge(ctx.explore(layout), part="layout", chunk=100)

    # ---- with a pinned destructor the type behaves like the twin with a Drop impl
    progs = []
    DR = "impl<T> Drop for S<T> { fn drop(&mut self) {} }\n"
    PD = "#[pinned_drop] impl<T> PinnedDrop for S<T> { fn drop(self: Pin<&mut Self>) {} }\n"
    for it in ITEMS:
        for p in probes(it):
            if "Unpin" in p:
                continue
            for a in ("(PinnedDrop)", "(PinnedDrop, !Unpin)", "(project = SP, project_ref = SR, PinnedDrop)") if th else ("(PinnedDrop)",):
                progs.append((PRE + twin(it["d"]) + "\n" + DR + fill(it, p) + "\n", PRE + it["d"].replace("$P", f"#[pin_project{a}]").replace("$p", "#[pin]") + "\n" + PD + fill(it, p) + "\n", f"pinned-drop/{it['n']}/{p[:60]}"))
    pair(ctx, progs, "pinned-drop")
