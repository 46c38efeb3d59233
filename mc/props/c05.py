"""C05: safe code cannot give an annotated type any other Unpin implementation."""
from core import Prog
import itertools

BOUNDS = ("4 Unpin modes x 10 item forms x every user impl header of the grammar (parameters: all/subset/concrete; bounds; "
          "where clauses; paths; placement in module/fn/const/macro; alias) for Unpin and UnsafeUnpin; decoy items for every "
          "generated name; probes of every generated name")
PRE = "use core::marker::{PhantomData, PhantomPinned}; use core::pin::Pin; use pin_project::{pin_project, UnsafeUnpin};\n"

# form: declaration with $A for arguments, impl generics, type, concrete types, first type parameter
FORMS = [
    ("named", "#[pin_project$A] pub struct S<T> { #[pin] f: T, g: u8 }", "T", "S<T>", ["S<u8>", "S<PhantomPinned>", "S<&'static u8>"]),
    ("tuple", "#[pin_project$A] pub struct S<T>(#[pin] T, u8);", "T", "S<T>", ["S<PhantomPinned>"]),
    ("nopin", "#[pin_project$A] pub struct S<T> { f: T, g: u8 }", "T", "S<T>", ["S<u8>", "S<PhantomPinned>"]),
    ("two", "#[pin_project$A] pub struct S<T, U> { #[pin] f: T, g: U }", "T, U", "S<T, U>", ["S<u8, u8>", "S<PhantomPinned, u8>"]),
    ("lt", "#[pin_project$A] pub struct S<'a, T> { #[pin] f: &'a T, g: T }", "'a, T", "S<'a, T>", ["S<'static, u8>", "S<'static, PhantomPinned>"]),
    ("const", "#[pin_project$A] pub struct S<T, const K: usize> { #[pin] f: [T; K] }", "T, const K: usize", "S<T, K>", ["S<u8, 0>", "S<PhantomPinned, 1>"]),
    ("enum", "#[pin_project$A] pub enum S<T> { A(#[pin] T), B { g: u8 }, C }", "T", "S<T>", ["S<u8>", "S<PhantomPinned>"]),
    ("concrete", "#[pin_project$A] pub struct S { #[pin] f: PhantomPinned }", "", "S", ["S"]),
    ("concrete-unpin", "#[pin_project$A] pub struct S { #[pin] f: u8, g: u8 }", "", "S", ["S"]),
    ("concrete-enum", "#[pin_project$A] pub enum S { A(#[pin] PhantomPinned), B(u8) }", "", "S", ["S"]),
    ("where", "#[pin_project$A] pub struct S<T> where T: Copy { #[pin] f: T }", "T: Copy", "S<T>", ["S<u8>"]),
    ("unsized", "#[pin_project$A] pub struct S<T: ?Sized> { g: u8, #[pin] f: T }", "T: ?Sized", "S<T>", ["S<u8>", "S<[u8]>", "S<str>"]),
    ("assoc", "#[pin_project$A] pub struct S<T: Iterator> { #[pin] f: T::Item }", "T: Iterator", "S<T>", ["S<std::vec::IntoIter<u8>>"]),
]
MODES = ["", "(!Unpin)", "(UnsafeUnpin)", "(UnsafeUnpin)+", "(project = SP)", "(PinnedDrop)"]
PD = "#[pin_project::pinned_drop] impl<{g}> PinnedDrop for {ty} {{ fn drop(self: Pin<&mut Self>) {{}} }}\n"


def base(form, mode):
    n, d, g, ty, conc = form
    if mode == "(project = SP)" and False:
        return None
    s = PRE + d.replace("$A", mode.rstrip("+")) + "\n"
    if mode == "(UnsafeUnpin)+":
        s += f"unsafe impl<{g}> UnsafeUnpin for {ty} {{}}\n"
    if "PinnedDrop" in mode:
        s += PD.format(g=g, ty=ty)
    return s


def headers(form, trait):
    """every impl header of `trait` for the form's type, safe-impl text without body"""
    n, d, g, ty, conc = form
    hs = []
    bounds = [""]
    if "T" in g.replace("const", ""):
        bounds += [" where T: Unpin", " where T: Copy", " where T: 'static", " where Box<T>: Unpin" if "?Sized" not in g else " where *const T: Copy",
                   " where PhantomData<T>: Unpin", " where T: Send + Sync"]
    bounds += [" where u8: Copy", " where (): Unpin"]
    paths = [trait] if trait == "UnsafeUnpin" else ["Unpin", "core::marker::Unpin", "::std::marker::Unpin"]
    for b in bounds:
        hs.append(f"impl<{g}> {paths[0]} for {ty}{b} {{}}")
    for p in paths[1:]:
        hs.append(f"impl<{g}> {p} for {ty} {{}}")
    for c in conc:
        if c != ty:
            hs.append(f"impl {paths[0]} for {c} {{}}")
    hs.append(f"impl<{g}> {paths[0]} for self::{ty} {{}}")
    return hs


PLACES = ["{i}", "mod inner {{ use super::*; {i} }}", "pub fn place() {{ {i} }}", "const _: () = {{ {i} }};", "macro_rules! m {{ ($($t:tt)*) => {{ $($t)* }} }} m! {{ {i} }}"]


def run(ctx):
    th = ctx.thorough
    ps = []
    for form in FORMS:
        g, ty = form[2], form[3]
        for mode in MODES:
            b = base(form, mode)
            ps.append(Prog(b, "ok", f"control/{form[0]}{mode}"))
            for h in headers(form, "Unpin"):
                for pl in (PLACES if th or h == headers(form, "Unpin")[0] else PLACES[:1]):
                    ps.append(Prog(b + pl.format(i=h) + "\n", "err", f"unpin/{form[0]}{mode}"))
            ps.append(Prog(b + f"pub type Al{'<' + g.replace(': ?Sized', '').replace(': Copy', '').replace(': Iterator', '') + '>' if g else ''} = {ty};\nimpl<{g}> Unpin for Al{ty[1:]} {{}}\n",
                           "err", f"alias/{form[0]}{mode}"))
            # UnsafeUnpin
            for h in headers(form, "UnsafeUnpin"):
                plain = h
                uns = "unsafe " + h
                ps.append(Prog(b + plain + "\n", "err", f"safe-UnsafeUnpin/{form[0]}{mode}"))
                if mode == "(UnsafeUnpin)":
                    ps.append(Prog(b + uns + "\n", "ok", f"UnsafeUnpin/{form[0]}{mode}"))
                else:
                    for pl in (PLACES if th else PLACES[:1]):
                        ps.append(Prog(b + pl.format(i=uns) + "\n", "err", f"UnsafeUnpin/{form[0]}{mode}"))
    # two UnsafeUnpin impls, and Unpin on top of UnsafeUnpin, are covered by "(UnsafeUnpin)+"
    # controls for the header grammar itself: on an unannotated twin the same headers are fine
    tw = []
    for form in FORMS:
        n, d, g, ty, conc = form
        twin = PRE + d.replace("#[pin_project$A] ", "").replace("#[pin] ", "") + "\n"
        for h in headers(form, "Unpin"):
            for pl in PLACES:
                tw.append(Prog(twin + pl.format(i=h) + "\n", "ok", "twin/" + n))
        for h in headers(form, "UnsafeUnpin"):
            tw.append(Prog(twin + "unsafe " + h + "\n", "ok", "twin-unsafe/" + n))
            tw.append(Prog(twin + h + "\n", "err", "twin-safe/" + n))

    ctx.calibrate(tw)

    # with the unstable negative_impls feature, coherence may conclude that a generated impl does not apply and let a second one in
    NEG = "#![feature(negative_impls)]\n"
    for feat in (NEG, "#![feature(negative_impls, with_negative_coherence)]\n", ""):
        for form in FORMS:
            n, d, g, ty, conc = form
            for mode in MODES:
                b = base(form, mode) + ("pub struct Neg; impl !Unpin for Neg {} pub struct NegG<X>(X); impl<X> !Unpin for NegG<X> {}\n" if feat else "pub type Neg = PhantomPinned; pub type NegG<X> = (X, PhantomPinned);\n")
                ps.append(Prog(b, "ok", f"negative-control/{n}{mode}", crate_attrs=feat))
                hs = []
                for q in ("Neg", "NegG<u8>", "PhantomPinned", "(u8, Neg)", "Option<Neg>", "PhantomData<Neg>"):
                    if n in ("named", "tuple", "nopin", "enum", "unsized"):
                        hs.append(f"impl Unpin for S<{q}> {{}}")
                    elif n == "two":
                        hs += [f"impl<U> Unpin for S<{q}, U> {{}}", f"impl<T> Unpin for S<T, {q}> {{}}", f"impl Unpin for S<{q}, {q}> {{}}"]
                    elif n == "const":
                        hs += [f"impl<const K: usize> Unpin for S<{q}, K> {{}}", f"impl Unpin for S<{q}, 1> {{}}"]
                    elif n == "lt":
                        hs.append(f"impl<'a> Unpin for S<'a, {q}> {{}}")
                if n in ("named", "tuple", "nopin", "enum"):
                    hs.append("impl<X> Unpin for S<NegG<X>> {}")
                hs += headers(form, "Unpin") if feat else []
                if feat and mode in ("(UnsafeUnpin)",):
                    hs += [f"impl<{g}> !UnsafeUnpin for {ty} {{}} " + h for h in headers(form, "Unpin")]
                for h in hs:
                    ps.append(Prog(b + h + "\n", "err", f"negative/{n}{mode}", crate_attrs=feat))

    # decoys: user items named like generated ones never change whether S is Unpin
    names = ["__S", "__SProjection", "__SProjectionRef", "__SProjectionOwned", "SMustNotImplDrop", "__UnpinStruct", "__Origin", "Wrapper",
             "PinnedFieldsOf", "AlwaysUnpin", "PinnedFieldsOfHelperStruct", "__private", "_S", "S__", "__S_", "Pin_", "SProj", "SProjRef", "__field0",
             "__lifetime0", "__assert_not_repr_packed", "__drop_inner", "__SUnpin", "pin_project_"]
    kinds = ["pub struct {n}<'a, T>(PhantomData<&'a T>); impl<'a, T> Unpin for {n}<'a, T> {{}}",
             "pub struct {n}<'a, T>(PhantomData<&'a T>, PhantomPinned);",
             "pub struct {n};", "pub type {n}<X> = PhantomData<X>;", "pub trait {n} {{}} impl<X: ?Sized> {n} for X {{}}", "pub mod {n} {{ pub struct {n}; pub use core::marker::PhantomData as Pin; }}",
             "pub enum {n}<X> {{ A(X) }} impl<X> Unpin for {n}<X> {{}}", "pub fn {n}() {{}}", "pub const {n}: u8 = 0;", "macro_rules! {n} {{ () => {{ u8 }} }}"]
    for n in names:
        for k in kinds:
            for decl, exp in (("#[pin_project] pub struct S<T> { #[pin] f: T, g: u8 }", ("true", "false")),
                              ("#[pin_project(!Unpin)] pub struct S<T> { #[pin] f: T, g: u8 }", ("false", "false")),
                              ("#[pin_project(UnsafeUnpin)] pub struct S<T> { #[pin] f: T, g: u8 }", ("false", "false")),
                              ("#[pin_project] pub enum S<T> { A(#[pin] T), B }", ("true", "false"))):
                if not th and "enum S" in decl and k != kinds[0]:
                    continue
                a = f"const _: () = assert!(mcrt::is_unpin!(S<u8>) == {exp[0]}); const _: () = assert!(mcrt::is_unpin!(S<PhantomPinned>) == {exp[1]});\n"
                for order in (0, 1):
                    src = [decl, k.format(n=n)]
                    if order:
                        src.reverse()
                    ps.append(Prog(PRE + "\n".join(src) + "\n" + a, "ok", f"decoy/{n}"))
    # locals named like helpers where the item lives in a function
    for n in names[:8]:
        ps.append(Prog(PRE + f"pub fn f() {{ {kinds[0].format(n=n)} #[pin_project] struct S<T> {{ #[pin] f: T }} "
                       "const _: () = assert!(mcrt::is_unpin!(S<u8>)); const _: () = assert!(!mcrt::is_unpin!(S<PhantomPinned>)); }\n", "ok", "decoy-fn/" + n))
    # helper types cannot be named
    helper = ["__S", "__SProjection", "__SProjectionRef", "__SProjectionOwned", "SMustNotImplDrop", "__assert_not_repr_packed", "_pin_project"]
    for form in FORMS:
        for mode in ("", "(!Unpin)", "(UnsafeUnpin)", "(project_replace)"):
            if mode == "(project_replace)" and ("enum" in form[1] or "?Sized" in form[1]):
                continue
            b = PRE + form[1].replace("$A", mode) + "\n"
            for h in helper:
                for path in (h, f"self::{h}", f"super::{h}") + ((f"crate::{h}",) if th else ()):
                    ps.append(Prog(b + f"pub use {path} as Found;\n", "err", f"name/{h}"))
        ps.append(Prog(b + "pub use self::S as Found;\n", "ok", "name/control"))
    ctx.judge(ps, part="programs", chunk=80)
