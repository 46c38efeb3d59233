"""C03: by default a type is Unpin exactly when all its pinned field types are."""
from core import Prog, Prune
from unpin import *
from shapes import spellings
import itertools
import re

BOUNDS = ("all pairs (pinned, pinned), (pinned, unpinned) over a 60-type alphabet, all types built from <=2 type constructors of an alphabet (oracle: the field type itself), types without parameters, all 1..3-field masks over a core "
          "alphabet, structs, tuples, enums over all variant positions, argument combinations, bounds/where/lifetime/const/"
          "default parameter lists; 4 instantiations each, plus generic-context derivability in both directions")

ARGS_STRUCT = ["", "(project = SP)", "(project_ref = SR)", "(project_replace)", "(project = SP, project_ref = SR, project_replace = SO)",
               "(PinnedDrop)", "(PinnedDrop, project = SP)"]
ARGS_ENUM = ["", "(project = SP)", "(project_ref = SR)", "(project_replace = SO)", "(PinnedDrop)"]
PD = "#[pin_project::pinned_drop] impl<T: Flip + 'static, U: Flip + 'static> PinnedDrop for S<T, U> { fn drop(self: Pin<&mut Self>) {} }\n"
ALL = SIZED + FLIP


CORE_CONSTR = ["Option<$>", "Box<$>", "($,)", "[$; 2]", "PhantomData<$>", "Wrap<$>", "(u8, $)", "&'static $", "*mut $", "ManuallyDrop<$>", "Alias<$>", "Pin<Box<$>>"]
CONSTR = CORE_CONSTR + ["&'static mut $", "*const $", "fn($)", "fn() -> $", "Always<$>", "Never<$>", "Ign<$>", "En<$>", "Vec<$>", "Rc<$>", "std::sync::Arc<$>", "Result<$, u8>", "Result<u8, $>", "ty!($)", "($)", "(($))", "Cell<$>", "UnsafeCell<$>", "RefCell<$>", "MaybeUninit<$>", "core::num::Wrapping<$>", "core::cmp::Reverse<$>", "std::sync::Mutex<$>",
                        "core::task::Poll<$>", "core::future::Ready<$>", "core::iter::Once<$>", "core::array::IntoIter<$, 2>", "std::collections::VecDeque<$>", "std::vec::IntoIter<$>", "[$; 0]", "[$; 1 + 2]", "[[$; 1]; 1]", "PhantomData<fn($)>", "PhantomData<*const $>", "Option<Box<$>>", "Box<[$]>", "&'static [$]", "Box<dyn Fn($) -> $>", "for<'x> fn(&'x $) -> &'x $", "unsafe extern \"C\" fn($)",
                        "core::ops::Range<$>", "Pin<&'static mut $>", "std::thread::JoinHandle<$>", "core::option::Option<$>", "::core::marker::PhantomData<$>", "::std::boxed::Box<$>", "<Option<$> as IntoIterator>::Item", "<[$; 2] as IntoIterator>::Item", "<Vec<$> as IntoIterator>::IntoIter", "<[$] as std::borrow::ToOwned>::Owned"][:-1] + \
    ["(" + ", ".join("$" if i == k else "u8" for i in range(n)) + ("," if n == 1 else "") + ")" for n in (3, 5, 8, 12) for k in sorted({0, n // 2, n - 1})]


def asserts(model, params="{T}, {U}", name="S"):
    o = ""
    for e in ENVS:
        inst = params.format(T=conc(e["T"]), U=conc(e["U"]))
        o += f"const _: () = assert!(mcrt::is_unpin!({name}<{inst}>) == {str(model(e)).lower()});\n"
    return o


def conj(ms):
    return lambda e: all(m(e) for m in ms)


def item(style, fs, args="", pd=False):
    """fs: list of (ty, pinned)"""
    d = [("#[pin] " if p else "") + t for t, p in fs]
    use = "PhantomData<fn(T, U)>"
    if style == "named":
        body = " { " + ", ".join(("#[pin] " if p else "") + f"f{i}: {t}" for i, (t, p) in enumerate(fs)) + f", z: {use} }}"
        return f"#[pin_project{args}]\npub struct S<T: Flip + 'static, U: Flip + 'static>{body}\n"
    if style == "tuple":
        return f"#[pin_project{args}]\npub struct S<T: Flip + 'static, U: Flip + 'static>({', '.join(d)}, {use});\n"
    if style == "unsized":
        return f"#[pin_project{args}]\npub struct S<T: Flip + 'static, U: Flip + 'static> {{ z: {use}, " + ", ".join(
            ("#[pin] " if p else "") + f"f{i}: {t}" for i, (t, p) in enumerate(fs)) + " }\n"
    if style == "enum-one":
        return f"#[pin_project{args}]\npub enum S<T: Flip + 'static, U: Flip + 'static> {{ A({', '.join(d)}), Z({use}) }}\n"
    if style == "enum-split":
        return f"#[pin_project{args}]\npub enum S<T: Flip + 'static, U: Flip + 'static> {{ Z({use}), " + ", ".join(
            f"V{i} {{ f: u8, {'#[pin] ' if p else ''}g: {t} }}" for i, (t, p) in enumerate(fs)) + ", Y }\n"
    raise AssertionError(style)


def run(ctx):
    calibrate(ctx)
    ps = []
    th = ctx.thorough

    def add(src, tag, model, **kw):
        ps.append(Prog(PRELUDE + src + asserts(model, **kw), "ok", tag))

    # every single type, every style, pinned and not, every argument list
    def single(c):
        st = c.pick("style", ["named", "tuple", "enum-one", "enum-split"], free=True)
        t, m = c.pick("type", ALL, free=True)
        p = c.pick("pinned", [True, False], free=True)
        args = c.pick("args", (ARGS_ENUM if st.startswith("enum") else ARGS_STRUCT), free=True)
        fs = [(t, p)]
        src = item(st, fs, args) + (PD if "PinnedDrop" in args else "")
        return (src, "single/" + st, m if p else Y)
    for s in ctx.explore(single):
        add(*s)

    # all ordered pairs
    def pair(c):
        st = c.pick("style", ["named", "enum-split"] if not th else ["named", "tuple", "enum-one", "enum-split"], free=True)
        a = c.pick("a", ALL, free=True)
        b = c.pick("b", ALL, free=True)
        mask = c.pick("mask", [(1, 1), (1, 0), (0, 1)], free=True)
        if not th and mask == (0, 1) and st == "enum-split":
            raise Prune
        m = conj([x[1] for x, k in zip((a, b), mask) if k])
        return (item(st, [(a[0], mask[0]), (b[0], mask[1])]), "pair/" + st, m)

    for s in ctx.explore(pair):
        add(*s)

    # triples over a core alphabet: every mask
    core_al = [ALL[i] for i in (0, 1, 2, 4, 6)]
    def triple(c):
        st = c.pick("style", ["named", "tuple", "enum-one", "enum-split"], free=True)
        fs = [c.pick(f"t{i}", core_al, free=True) for i in range(3)]
        mask = c.pick("mask", list(itertools.product((0, 1), repeat=3)), free=True)
        if not th and st in ("tuple", "enum-one") and fs[0] != fs[1]:
            raise Prune
        return (item(st, [(f[0], k) for f, k in zip(fs, mask)]), "triple/" + st, conj([f[1] for f, k in zip(fs, mask) if k]))
    for s in ctx.explore(triple):
        add(*s)

    # wide: one !Unpin (or parametric) pinned field at every position
    for n in (5, 9, 17) + ((33,) if th else ()):
        for hot in range(n):
            for t, m in (("NotUnpin", N), ("T", T), ("Box<T>", Y)):
                for st in ("named", "enum-split"):
                    for rest in (0, 1):
                        fs = [("u8", rest)] * n
                        fs[hot] = (t, 1)
                        add(item(st, fs), "wide/" + st, m)
                        fs = [("u8", rest)] * n
                        fs[hot] = ("NotUnpin", 0)
                        if t == "T" and rest:
                            add(item(st, fs), "wide-unpinned/" + st, Y)

    # the verdict depends on what a type is, not on how it is spelled
    SP = "use ::pin_project::pin_project; use ::mcrt::ut::*;\n"
    for target, m in (("::mcrt::ut::NotUnpin", N), ("::mcrt::ut::UnpinTy", Y), ("TT", T)):
        for i, (d, s) in enumerate(spellings(target)):
            if target == "TT":
                if "TT" in d or not ("TT" in s):
                    continue  # only spellings that take the type as an argument
                s = s.replace("TT", "Q")
            for st, decl in (("named", "pub struct S<Q: Flip + 'static, R: Flip + 'static> { $p f: $T, g: ::core::marker::PhantomData<fn(Q, R)> }"), ("tuple", "pub struct S<Q: Flip + 'static, R: Flip + 'static>(::core::primitive::u8, $p $T, ::core::marker::PhantomData<fn(Q, R)>);"),
                             ("enum", "pub enum S<Q: Flip + 'static, R: Flip + 'static> { A, B { $p f: $T }, C(::core::marker::PhantomData<fn(Q, R)>) }"),
                             ("twice", "pub struct S<Q: Flip + 'static, R: Flip + 'static> { #[pin] e: ::core::primitive::u8, $p f: $T, $p f2: $T, g: ::core::marker::PhantomData<fn(Q, R)> }")):
                for p in (1, 0):
                    src = SP + d + "\n#[pin_project] " + decl.replace("$T", s).replace("$p", "#[pin]" if p else "") + "\n"
                    o = "".join(f"const _: () = ::core::assert!(::mcrt::is_unpin!(S<::mcrt::ut::{conc(e['T'])}, ::mcrt::ut::{conc(e['U'])}>) == {str(m(e) if p else True).lower()});\n" for e in ENVS)
                    ps.append(Prog(src + o, "ok", "spelling/" + st))

    # every type built by at most two (thorough: three, over a core) type constructors; the oracle is the field type itself under the same instantiation
    def deep(c):
        leaf = c.pick("leaf", ["T", "NotUnpin", "UnpinTy"], free=True)
        n = c.pick("depth", [1, 2] if not th else [1, 2, 3], free=True)
        t = leaf
        for i in range(n):
            k = c.pick(f"c{i}", CONSTR if n < 3 and (th or i == 0 or n == 1) else CORE_CONSTR, free=True)
            t = k.replace("$", t)
        st = c.pick("style", ["named", "tuple", "enum"] if n == 1 or th and n == 2 else ["named"], free=True)
        decl = {"named": "pub struct S<T> { #[pin] f: $T, z: PhantomData<fn(T)> }", "tuple": "pub struct S<T>(PhantomData<fn(T)>, #[pin] $T);", "enum": "pub enum S<T> { A, B(#[pin] $T), Z(PhantomData<fn(T)>) }"}[st].replace("<T>", "<T: 'static>", 1)
        o = "".join(f"const _: () = assert!(mcrt::is_unpin!(S<{x}>) == {{ type T = {x}; mcrt::is_unpin!({t}) }});\n" for x in ("UnpinTy", "NotUnpin"))
        return Prog(PRELUDE + "use std::rc::Rc; use core::mem::*; use core::cell::*; #[allow(non_camel_case_types)] type u = u8;\n" + f"#[pin_project] {decl.replace('$T', t)}\n" + o, "ok", "constructed/" + st)
    ps += ctx.explore(deep)

    # the pieces of the item arrive through a macro_rules macro, as every kind of fragment
    FRAG = {"ty": ("$a:ty", "$b:ty", "$a", "$b"), "tt": ("$($a:tt)*", "$($b:tt)*", "$($a)*", "$($b)*"), "path": ("$a:path", "$b:path", "$a", "$b"), "ty+tt": ("$a:ty", "$($b:tt)*", "$a", "$($b)*"), "tt+ty": ("$($a:tt)*", "$b:ty", "$($a)*", "$b"), "arg": ("$a:ty", "$b:ty", "Option<$a>", "Wrap<$b>"), "tuple": ("$a:ty", "$b:ty", "($a, u8)", "(u8, $b)"),
            "array": ("$a:ty", "$b:ty", "[$a; 2]", "[$b; 1]"), "alias": ("$a:ty", "$b:ty", "mac!($a)", "mac!($b)")}

    def frag(c):
        f = c.pick("fragment", list(FRAG), free=True)
        al = [("T", T), ("NotUnpin", N), ("UnpinTy", Y), ("U", U), ("Box<T>", Y), ("Option<T>", T), ("PhantomPinned", N)]
        if f not in ("path",):
            al += [("[T; 2]", T), ("&'static NotUnpin", Y), ("(T, U)", conj([T, U])), ("*const T", Y)]
        a = c.pick("a", al, free=True)
        b = c.pick("b", al, free=True)
        mask = c.pick("mask", [(1, 1), (1, 0), (0, 1)], free=True)
        st = c.pick("style", ["named", "tuple", "enum-split"] if th or mask == (1, 1) else ["named"], free=True)
        if f in ("tt", "ty+tt") and "," in a[0] or "," in b[0] and f == "tt+ty" and 0:
            pass
        pa, pb, ua, ub = FRAG[f]
        m = conj([x[1] for x, k in zip((a, b), mask) if k])
        src = f"#[allow(unused_macros)] macro_rules! mac {{ ($t:ty) => {{ $t }} }}\nmacro_rules! mk {{ ([{pa}] [{pb}]) => {{ {item(st, [(ua, mask[0]), (ub, mask[1])])} }} }}\nmk!([{a[0]}] [{b[0]}]);\n"
        return (src, f"fragment/{f}/{st}", m)
    for s in ctx.explore(frag):
        add(*s)

    # items without type parameters: the same types, spelled with concrete types
    def concrete(c):
        t, m = c.pick("type", [x for x in ALL if "::Same" not in x[0] or " as " in x[0]], free=True)
        e = c.pick("env", [ENVS[0], ENVS[3]], free=True)
        pn = c.pick("pinned", [1, 0], free=True)
        g, gu, ex = c.pick("params", [("", "", ""), ("<'a>", "<'static>", ", #[allow(unused)] q: &'a u8"), ("<const K: usize>", "<2>", ", q: [u8; K]"), ("<'a, const K: usize>", "<'static, 3>", ", q: &'a [u8; K]")][:4 if th else 3], free=True)
        how = c.pick("how", ["alias", "text"], free=True)
        st = c.pick("style", ["named", "tuple", "enum"] if th or not g else ["named"], free=True)
        pre = ""
        if how == "alias":
            pre = f"type T = {conc(e['T'])}; type U = {conc(e['U'])};\n"
        else:
            t = re.sub(r"\bT\b", conc(e["T"]), re.sub(r"\bU\b", conc(e["U"]), t))
        q = "#[pin] " if pn else ""
        ext = ex.replace(" q: ", " ").replace("#[allow(unused)] ", "") if st == "tuple" else ex
        d = {"named": f"pub struct S{g} {{ {q}f: {t}{ex} }}", "tuple": f"pub struct S{g}({q}{t}{ext});", "enum": f"pub enum S{g} {{ A, B {{ {q}f: {t}{ex} }} }}"}[st]
        return Prog(PRELUDE + pre + f"#[pin_project] {d}\nconst _: () = assert!(mcrt::is_unpin!(S{gu}) == {str(m(e) if pn else True).lower()});\n", "ok", "concrete/" + st)
    ps += ctx.explore(concrete)

    # unsized tails
    for t, m in UNSIZED:
        for p in (1, 0):
            add(item("unsized", [(t, p)]), "unsized", m if p else Y)
            add(item("unsized", [("T", 1), (t, p)]), "unsized", conj([T, m] if p else [T]))

    # other parameter lists: unused params, lifetimes, consts, bounds, where clauses, defaults, repr
    L = []
    def other(decl, params, model, tag):
        ps.append(Prog(PRELUDE + decl + "\n" + asserts(model, params=params), "ok", "params/" + tag))
    PH = "PhantomData<(T, U)>"
    for pin_t in (0, 1):
        q = "#[pin] " if pin_t else ""
        m = T if pin_t else Y
        for args in ("", "(project = SP)", "(project_replace)"):
            other(f"#[pin_project{args}] pub struct S<T, U> {{ {q}a: T, b: U }}", "{T}, {U}", m, "plain")
            other(f"#[pin_project{args}] pub struct S<T, U> {{ {q}a: T, b: PhantomData<U> }}", "{T}, {U}", m, "phantom")
            other(f"#[pin_project{args}] pub struct S<'a, T, U> {{ {q}a: T, b: &'a U }}", "'static, {T}, {U}", m, "lifetime")
            other(f"#[pin_project{args}] pub struct S<'a, 'b: 'a, T: 'a, U> where U: 'b {{ {q}a: T, b: &'a &'b u8, c: PhantomData<U> }}", "'static, 'static, {T}, {U}", m, "lifetimes")
            other(f"#[pin_project{args}] pub struct S<T, U, const K: usize> {{ {q}a: [T; K], b: U }}", "{T}, {U}, 3", m, "const")
            other(f"#[pin_project{args}] pub struct S<const K: usize, T, U> {{ {q}a: T, b: [U; K] }}", "3, {T}, {U}", m, "const-first")
            other(f"#[pin_project{args}] pub struct S<T = u8, U = u8> {{ {q}a: T, b: U }}", "{T}, {U}", m, "default")
            other(f"#[pin_project{args}] pub struct S<T, U> where T: Flip, U: Flip<Same = U> {{ {q}a: T, b: U }}", "{T}, {U}", m, "where")
            other(f"#[pin_project{args}] #[repr(C)] pub struct S<T, U> {{ {q}a: T, b: U }}", "{T}, {U}", m, "repr")
            other(f"#[pin_project{args}] struct S<T, U> {{ {q}a: T, b: U }}", "{T}, {U}", m, "private")
            other(f"#[pin_project{args}] pub(crate) struct S<T, U> {{ {q}pub a: T, pub(crate) b: U }}", "{T}, {U}", m, "crate")
        if pin_t:
            other("#[pin_project] pub struct S<T: ?Sized, U> { b: U, #[pin] a: T }", "{T}, {U}", T, "maybe-unsized")
            other("#[pin_project] pub struct S<T: Unpin2, U> { b: U, #[pin] a: T } pub trait Unpin2 {} impl<X> Unpin2 for X {}", "{T}, {U}", T, "bound")
            other("#[pin_project] pub struct S<Z, U, T> { #[pin] a: T, b: U, c: Z }", "NotUnpin, {U}, {T}", T, "three")
            other("#[pin_project] pub struct S<T, U> { #[pin] r#type: T, #[pin] r#fn: PhantomData<fn(U)> }", "{T}, {U}", T, "raw")
            # recursion through a pointer
            other("#[pin_project] pub struct S<T, U> { #[pin] a: T, #[pin] next: Option<Box<S<T, U>>>, b: U }", "{T}, {U}", T, "recursive-box")
            other("#[pin_project] pub struct S<T, U> { a: T, #[pin] next: PhantomData<Inner<U>>, b: U } #[pin_project] pub struct Inner<U> { #[pin] u: U }", "{T}, {U}", U, "nested")
            other("#[pin_project] pub struct S<T, U> { a: T, #[pin] next: Inner<T, U> } #[pin_project(!Unpin)] pub struct Inner<T, U> { t: T, u: U }", "{T}, {U}", N, "nested-not-unpin")
            other("#[pin_project] pub struct S<T, U> { a: T, #[pin] next: Inner<T, U> } #[pin_project(UnsafeUnpin)] pub struct Inner<T, U> { t: T, #[pin] u: U } unsafe impl<T: Unpin, U> pin_project::UnsafeUnpin for Inner<T, U> {}", "{T}, {U}", T, "nested-unsafe")
        # cfg on a pinned field is resolved before
        other("#[pin_project] pub struct S<T, U> { #[cfg(any())] #[pin] a: NotUnpin, #[pin] b: T, c: U }", "{T}, {U}", T, "cfg-out")
        other("#[pin_project] pub struct S<T, U> { #[cfg_attr(any(), pin)] a: NotUnpin, #[pin] b: T, c: U }", "{T}, {U}", T, "cfg-attr-out")
        other("#[pin_project] pub struct S<T, U> { #[cfg_attr(all(), pin)] a: NotUnpin, b: T, c: U }", "{T}, {U}", N, "cfg-attr-in")
        other("#[pin_project] pub struct S<T, U> { #[doc = \"x\"] #[pin] #[allow(unused)] a: T, c: U }", "{T}, {U}", T, "attrs")

    # associated types reached through a bound that is only in the where clause
    other("#[pin_project] pub struct S<T, U> where T: Flip { #[pin] a: <T as Flip>::Same, b: U }", "{T}, {U}", T, "assoc-where")
    other("#[pin_project] pub struct S<T, U> where T: Flip, <T as Flip>::Out: Sized { #[pin] a: <T as Flip>::Out, b: U }", "{T}, {U}", lambda e: not e["T"], "assoc-flip")
    other("#[pin_project] pub struct S<T, U> where T: Iterator2 { #[pin] a: T::Item, b: U } pub trait Iterator2 { type Item; } impl Iterator2 for UnpinTy { type Item = NotUnpin; } impl Iterator2 for NotUnpin { type Item = u8; }",
          "{T}, {U}", lambda e: not e["T"], "assoc-item")

    # generic context: derivable exactly from the pinned parameters
    NEED = "fn need<X: Unpin + ?Sized>() {}\n"
    for st in ("named", "tuple", "enum-one", "enum-split"):
        for t, need in (("T", {"T"}), ("U", {"U"}), ("Box<T>", set()), ("(T, U)", {"T", "U"}), ("Option<T>", {"T"}), ("*const T", set()),
                        ("PhantomData<T>", {"T"}), ("&'static T", set()), ("Wrap<T>", {"T"}), ("Always<T>", set()), ("[T; 3]", {"T"})):
            for p in (0, 1):
                for have in (set(), {"T"}, {"U"}, {"T", "U"}):
                    ok = (not p) or need <= have
                    bs = ", ".join(f"{x}: Flip + 'static" + (" + Unpin" if x in have else "") for x in ("T", "U"))
                    src = PRELUDE + NEED + item(st, [(t, p)]) + f"pub fn g<{bs}>() {{ need::<S<T, U>>() }}\n"
                    ps.append(Prog(src, "ok" if ok else "err", f"generic/{st}"))
    for t, ok in (("NotUnpin", False), ("PhantomPinned", False), ("u8", True), ("dyn Obj", False)):
        src = PRELUDE + NEED + f"#[pin_project] pub struct S {{ a: u8, #[pin] b: {t} }}\npub fn g() {{ need::<S>() }}\n"
        ps.append(Prog(src, "ok" if ok else "err", "concrete"))
    # usable through the std Pin API that depends on Unpin
    for t, ok in (("Box<NotUnpin>", True), ("NotUnpin", False)):
        src = PRELUDE + f"#[pin_project] pub struct S {{ #[pin] b: {t} }}\npub fn g(x: &mut S) -> Pin<&mut S> {{ Pin::new(x) }}\npub fn h(x: Pin<&mut S>) -> &mut S {{ x.get_mut() }}\n"
        ps.append(Prog(src, "ok" if ok else "err", "api"))
    ctx.judge(ps, part="instantiations", chunk=60)
