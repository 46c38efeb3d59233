"""C18: generated code compiles cleanly in every crate environment (editions, no_std, no prelude, lints, shadowing, placement)."""
from core import Prog, Prune
import core, itertools, os, re, subprocess, json
from concurrent.futures import ThreadPoolExecutor

BOUNDS = ("12 item forms x 4 editions x 5 crate settings (std, no_std, no_implicit_prelude, forbid(unsafe_code), all strict lint groups) x ~45 shadowing preambles, singly and all together, "
          "x 16 placements (functions, closures, consts, methods, every macro_rules fragment kind); other crates under the names core/alloc/std; every stable rustc lint and every clippy group on every item form, compared with the unannotated twin")

G = "T, U"
# name -> (item with $P attribute path, extra impls, client, unsafe?)
C = "::core::pin::Pin"
ITEMS = {
    "named": ("#[$P] pub struct S<T, U> { #[pin] pub a: T, pub b: U }", "", "struct"),
    "named-proj": ("#[$P(project = SP, project_ref = SR)] pub struct S<T, U> { #[pin] pub a: T, pub b: U }", "", "struct"),
    "tuple": ("#[$P] pub struct S<T, U>(#[pin] pub T, pub U);", "", "tuple"),
    "tuple-repl": ("#[$P(project = SP, project_ref = SR, project_replace = SO)] pub struct S<T, U>(#[pin] pub T, pub U);", "", "tuple"),
    "repl": ("#[$P(project_replace)] pub struct S<T, U> { #[pin] pub a: T, pub b: U }", "", "struct"),
    "enum": ("#[$P(project = SP, project_ref = SR, project_replace = SO)] pub enum S<T, U> { A { #[pin] a: T, b: U }, B(#[pin] T, U), C }", "", "enum"),
    "enum-none": ("#[$P] pub enum S<T, U> { A { #[pin] a: T, b: U }, B(#[pin] T, U), C }", "", "none"),
    "pdrop": ("#[$P(PinnedDrop)] pub struct S<T, U> { #[pin] pub a: T, pub b: U }", "#[$D] impl<T, U> PinnedDrop for S<T, U> { fn drop(self: ::core::pin::Pin<&mut Self>) { let x = self.project(); let _y: ::core::pin::Pin<&mut T> = x.a; } }", "struct"),
    "pdrop-enum": ("#[$P(PinnedDrop, project = SP)] pub enum S<T, U> { A { #[pin] a: T, b: U }, B(#[pin] T, U) }", "#[$D] impl<T, U> PinnedDrop for S<T, U> { fn drop(self: ::core::pin::Pin<&mut Self>) { match self.project() { SP::A { a: _, .. } => {} SP::B(_, _b) => {} } } }", "none"),
    "not-unpin": ("#[$P(!Unpin)] pub struct S<T, U> { #[pin] pub a: T, pub b: U }", "", "struct"),
    "unsafe-unpin": ("#[$P(UnsafeUnpin)] pub struct S<T, U> { #[pin] pub a: T, pub b: U }", "", "struct"),
    "where": ("#[$P(project = SP, project_replace = SO)] pub struct S<'a, T: 'a, U, const N: usize> where U: ::core::marker::Copy { #[pin] pub a: &'a mut T, pub b: [U; N] }", "", "where"),
}
UU = ("#[$P(UnsafeUnpin)] pub struct S<T, U> { #[pin] pub a: T, pub b: U }", "unsafe impl<T: ::core::marker::Unpin, U> ::pin_project::UnsafeUnpin for S<T, U> {}", "struct")
M = "::core::pin::Pin<&mut S<T, U>>"
R = "::core::pin::Pin<&S<T, U>>"
CLIENT = {
    "struct": f"pub fn f<T, U>(s: {M}) {{ let x = s.project(); let _a: ::core::pin::Pin<&mut T> = x.a; let _b: &mut U = x.b; }} pub fn g<T, U>(s: {R}) {{ let x = s.project_ref(); let _a: ::core::pin::Pin<&T> = x.a; let _b: &U = x.b; }}",
    "tuple": f"pub fn f<T, U>(s: {M}) {{ let x = s.project(); let _a: ::core::pin::Pin<&mut T> = x.0; let _b: &mut U = x.1; }} pub fn g<T, U>(s: {R}) {{ let x = s.project_ref(); let _a: ::core::pin::Pin<&T> = x.0; let _b: &U = x.1; }}",
    "enum": f"pub fn f<T, U>(s: {M}) {{ match s.project() {{ SP::A {{ a, b }} => {{ let _a: ::core::pin::Pin<&mut T> = a; let _b: &mut U = b; }} SP::B(_a, _b) => {{}} SP::C => {{}} }} }} pub fn g<T, U>(s: {R}) {{ if let SR::B(_a, _b) = s.project_ref() {{}} }}",
    "none": "pub fn f<T, U>(_s: &S<T, U>) {}",
    "where": "pub fn f<'a, T: 'a, U: ::core::marker::Copy>(s: ::core::pin::Pin<&mut S<'a, T, U, 3>>) { let x = s.project(); let _a: ::core::pin::Pin<&mut &'a mut T> = x.a; let _b: &mut [U; 3] = x.b; }",
}


def text(it, P="::pin_project::pin_project", D="::pin_project::pinned_drop"):
    d, imp, cl = it
    return (d + "\n" + imp).replace("$P", P).replace("$D", D) + "\n", CLIENT[cl] + "\n"


HEAD15 = "extern crate pin_project; extern crate core;"
LINTS = ("#![deny(warnings, unused, nonstandard_style, future_incompatible, rust_2018_idioms, rust_2018_compatibility, rust_2021_compatibility, rust_2024_compatibility, keyword_idents, let_underscore, refining_impl_trait, "
         "single_use_lifetimes, trivial_casts, trivial_numeric_casts, unused_lifetimes, unused_qualifications, unused_results, variant_size_differences, unreachable_pub, redundant_lifetimes, missing_copy_implementations, macro_use_extern_crate, "
         "meta_variable_misuse, non_ascii_idents, unit_bindings, unnameable_types, unsafe_op_in_unsafe_fn, private_bounds, private_interfaces, deprecated_safe, ambiguous_negative_literals)]\n"
         "#![allow(clippy::all, single_use_lifetimes, unused_crate_dependencies)]\n")
SETTINGS = {
    "std": "#![deny(warnings)]\n",
    "no_std": "#![no_std]\n#![deny(warnings)]\n",
    "no_prelude": "#![no_implicit_prelude]\n#![deny(warnings)]\n",
    "forbid_unsafe": "#![forbid(unsafe_code)]\n#![deny(warnings)]\n",
    "no_std_forbid": "#![no_std]\n#![forbid(unsafe_code)]\n#![deny(warnings)]\n",
}
SHADOW = [
    "pub struct Pin;", "pub trait Drop {}", "pub trait Unpin {}", "pub enum Option { Some, None }", "pub struct Some; pub struct None;", "pub struct Ok; pub struct Err;", "pub trait Sized {}", "pub trait Send {} pub trait Sync {}", "pub struct PhantomData; pub struct PhantomPinned;",
    "pub struct Result;", "pub struct Box; pub struct String; pub struct Vec;", "pub fn drop() {}", "pub mod core {}", "pub mod std {}", "pub mod alloc {}", "pub mod pin_project {}", "pub mod pin {} pub mod marker {} pub mod mem {} pub mod ptr {}", "pub mod __private {}", "pub mod _pin_project {}",
    "#[allow(non_camel_case_types)] pub struct u8; #[allow(non_camel_case_types)] pub struct bool; #[allow(non_camel_case_types)] pub struct usize; #[allow(non_camel_case_types)] pub struct str;",
    "#[allow(unused_macros)] macro_rules! unreachable { () => { compile_error!() } } #[allow(unused_macros)] macro_rules! panic { () => { compile_error!() } }",
    "pub trait PinnedDrop {}", "pub trait UnsafeUnpin {}", "pub struct AlwaysUnpin; pub struct Wrapper; pub struct PinnedFieldsOf; pub struct UnsafeDropInPlaceGuard; pub struct UnsafeOverwriteGuard;", "pub trait MustNotImplDrop {} pub struct SMustNotImplDrop;", "pub struct Projection; pub struct SProjection; pub struct SProjectionRef; pub struct SProjectionOwned;",
    "pub trait Ev1 { fn project(self) where Self: ::core::marker::Sized {} fn project_ref(self) where Self: ::core::marker::Sized {} fn project_replace(self) where Self: ::core::marker::Sized {} } impl<X> Ev1 for X {}",
    "pub trait Ev2 { fn get_unchecked_mut(self) where Self: ::core::marker::Sized {} fn get_ref(self) where Self: ::core::marker::Sized {} fn map_unchecked_mut(self) where Self: ::core::marker::Sized {} } impl<X> Ev2 for X {}",
    "pub trait Ev3 { fn get_unchecked_mut(&mut self) {} fn get_ref(&self) {} fn as_mut(&self) {} fn drop(&self) {} fn new_unchecked() {} } impl<X: ?::core::marker::Sized> Ev3 for X {}",
    "pub trait Ev4 { fn new_unchecked() {} fn new() {} fn clone(&self) {} fn deref(&self) {} fn into_inner(&self) {} fn read(&self) {} fn write(&self) {} } impl<X: ?::core::marker::Sized> Ev4 for X {}",
    "pub type Target = (); pub type Output = ();", "pub trait Deref {} pub trait DerefMut {}", "pub trait Copy {} pub trait Clone {}", "pub fn project() {} pub fn project_ref() {}", "pub mod self_ {} pub mod crate_ {}", "pub struct Self_;", "pub trait Fn {} pub trait FnOnce {} pub trait FnMut {}",
    "pub fn guard() {} pub fn result() {} pub fn replacement() {} pub fn this() {} pub fn __self() {}", "pub struct T; pub struct U;", "pub trait Into {} pub trait From {}", "pub mod S_ {} pub mod a {} pub mod b {}".replace("pub mod S_ {} ", ""), "pub mod primitive {} pub mod prelude {} pub mod v1 {}", "pub union MaybeUninit { pub a: ::core::primitive::u8 }", "pub struct ManuallyDrop;", "pub static __A: () = ();",
]
# macro names that would shadow prelude macros need `use` in edition 2018+; textual scope is enough here

# $I item(s), $C client
PLACES = {
    "module": "$I $C",
    "fn": "#[allow(dead_code)] pub fn host() { $I $C }",
    "nested-fn": "#[allow(dead_code)] pub fn host() { fn inner() { $I $C } inner() }",
    "const": "#[allow(dead_code)] const _: () = { $I $C };",
    "closure": "#[allow(dead_code)] pub fn host() { let c = || { $I $C }; c() }",
    "method": "pub struct Host; impl Host { #[allow(dead_code)] pub fn m(&self) { $I $C } }",
    "trait-default": "pub trait Host { #[allow(dead_code)] fn m(&self) { $I $C } }",
    "block": "#[allow(dead_code)] pub fn host() { { $I $C } }",
    "array-len": "#[allow(dead_code)] pub fn host() -> [(); { $I $C 3 }] { [(); 3] }",
    "submodule": "pub mod sub { $I $C }",
    "private-submodule": "#[allow(dead_code)] mod sub { $I $C }",
    "macro-tt": "macro_rules! mk { ($($t:tt)*) => { $($t)* } } mk! { $I } $C",
    "macro-tt2": "macro_rules! mk { ($($t:tt)*) => { mk2! { $($t)* } } } macro_rules! mk2 { ($($t:tt)*) => { $($t)* } } mk! { $I $C }",
    "macro-plain": "macro_rules! mk { () => { $I $C } } mk!();",
    "macro-in-fn": "macro_rules! mk { () => { $I $C } } #[allow(dead_code)] pub fn host() { mk!(); }",
    "macro-item": "macro_rules! mk { ($($i:item)*) => { $($i)* } } mk! { $I } $C",
}


def frag_programs():
    """items assembled by macro_rules out of every kind of fragment"""
    out = []
    P = "::pin_project::pin_project"
    use = "pub fn f(s: ::core::pin::Pin<&mut S<u8, u16>>) { let x = s.project(); let _a: ::core::pin::Pin<&mut u8> = x.a; let _b: &mut u16 = x.b; } pub fn g(s: ::core::pin::Pin<&S<u8, u16>>) { let x = s.project_ref(); let _a: ::core::pin::Pin<&u8> = x.a; let _b: &u16 = x.b; }"
    use0 = use.replace("S<u8, u16>", "S")
    L = [
        ("ty", f"macro_rules! mk {{ ($a:ty, $b:ty) => {{ #[{P}] pub struct S {{ #[pin] pub a: $a, pub b: $b }} }} }} mk!(u8, u16);", use0),
        ("ident", f"macro_rules! mk {{ ($n:ident, $a:ident, $b:ident) => {{ #[{P}] pub struct $n<T, U> {{ #[pin] pub $a: T, pub $b: U }} }} }} mk!(S, a, b);", use),
        ("vis", f"macro_rules! mk {{ ($v:vis, $w:vis) => {{ #[{P}] $v struct S<T, U> {{ #[pin] $w a: T, $w b: U }} }} }} mk!(pub, pub);", use),
        ("vis-empty", f"macro_rules! mk {{ ($v:vis, $w:vis $n:ident) => {{ #[{P}] $v struct S<T, U> {{ #[pin] $w $n: T, $w b: U }} }} }} mk!(pub, a);", use),
        ("vis-crate", f"macro_rules! mk {{ ($v:vis, $w:vis) => {{ #[{P}] $v struct S<T, U> {{ #[pin] $w a: T, $w b: U }} }} }} mk!(pub, pub(crate));", use),
        ("meta", f"macro_rules! mk {{ ($m:meta, $p:meta) => {{ #[$m] pub struct S<T, U> {{ #[$p] pub a: T, pub b: U }} }} }} mk!({P}, pin);", use),
        ("metas", f"macro_rules! mk {{ ($(#[$m:meta])* struct $n:ident) => {{ $(#[$m])* pub struct $n<T, U> {{ #[pin] pub a: T, pub b: U }} }} }} mk!(#[doc = \"x\"] #[{P}(project_replace)] #[allow(dead_code)] struct S);", use),
        ("args", f"macro_rules! mk {{ ($($t:tt)*) => {{ #[{P}($($t)*)] pub struct S<T, U> {{ #[pin] pub a: T, pub b: U }} }} }} mk!(project = SP, project_ref = SR);", use),
        ("args-ident", f"macro_rules! mk {{ ($p:ident, $k:ident) => {{ #[{P}($k = $p)] pub struct S<T, U> {{ #[pin] pub a: T, pub b: U }} }} }} mk!(SP, project);", use),
        ("lifetime", f"macro_rules! mk {{ ($l:lifetime, $a:ty) => {{ #[{P}] pub struct S<$l> {{ #[pin] pub a: u8, pub b: u16, pub c: &$l $a }} }} }} mk!('a, u8);", use0.replace("S>", "S<'_>>")),
        ("lifetime-pin", f"macro_rules! mk {{ ($l:lifetime, $a:ty) => {{ #[{P}] pub struct S<$l> {{ #[pin] pub a: u8, pub b: u16, pub c: &$l $a }} }} }} mk!('pin, u8);", use0.replace("S>", "S<'_>>")),
        ("generics", f"macro_rules! mk {{ ([$($g:tt)*], [$($w:tt)*]) => {{ #[{P}] pub struct S<$($g)*> $($w)* {{ #[pin] pub a: T, pub b: U }} }} }} mk!([T: ::core::marker::Copy, U], [where U: ::core::marker::Copy]);", use),
        ("literal", f"macro_rules! mk {{ ($n:literal) => {{ #[{P}] pub struct S {{ #[pin] pub a: u8, pub b: u16, pub c: [u8; $n] }} }} }} mk!(3);", use0),
        ("expr", f"macro_rules! mk {{ ($n:expr) => {{ #[{P}] pub struct S {{ #[pin] pub a: u8, pub b: u16, pub c: [u8; $n] }} }} }} mk!(1 + 2);", use0),
        ("path", f"macro_rules! mk {{ ($p:path) => {{ #[{P}] pub struct S {{ #[pin] pub a: u8, pub b: u16, pub c: $p }} }} }} mk!(::core::option::Option<u8>);", use0),
        ("body", f"macro_rules! mk {{ ($($b:tt)*) => {{ #[{P}] pub struct S<T, U> $($b)* }} }} mk!({{ #[pin] pub a: T, pub b: U }});", use),
        ("repeat", f"macro_rules! mk {{ ($($(#[$m:ident])? $n:ident: $t:ty),*) => {{ #[{P}] pub struct S {{ $($(#[$m])? pub $n: $t),* }} }} }} mk!(#[pin] a: u8, b: u16);", use0),
        ("item", f"macro_rules! mk {{ ($i:item) => {{ #[{P}] $i }} }} mk!(pub struct S<T, U> {{ #[pin] pub a: T, pub b: U }});", use),
        ("pdrop", f"macro_rules! mk {{ ($n:ident, $m:ident) => {{ #[{P}(PinnedDrop)] pub struct $n {{ #[pin] pub a: u8, pub b: u16 }} #[::pin_project::pinned_drop] impl PinnedDrop for $n {{ fn $m(self: ::core::pin::Pin<&mut Self>) {{ let _x = self.project(); }} }} }} }} mk!(S, drop);", use0),
        ("pdrop-body", f"#[{P}(PinnedDrop)] pub struct S {{ #[pin] pub a: u8, pub b: u16 }} macro_rules! mk {{ ($($b:tt)*) => {{ #[::pin_project::pinned_drop] impl PinnedDrop for S {{ fn drop(self: ::core::pin::Pin<&mut Self>) {{ $($b)* }} }} }} }} mk!(let _x = 3;);", use0),
        ("pdrop-ty", f"#[{P}(PinnedDrop)] pub struct S {{ #[pin] pub a: u8, pub b: u16 }} macro_rules! mk {{ ($i:ident) => {{ #[::pin_project::pinned_drop] impl PinnedDrop for $i {{ fn drop(self: ::core::pin::Pin<&mut Self>) {{ }} }} }} }} mk!(S);", use0),
        ("enum", f"macro_rules! mk {{ ($n:ident, $v:ident, $a:ty) => {{ #[{P}(project = SP)] pub enum $n {{ $v(#[pin] $a, u8), W }} }} }} mk!(S, V, u16);", "pub fn f(s: ::core::pin::Pin<&mut S>) { if let SP::V(x, y) = s.project() { let _x: ::core::pin::Pin<&mut u16> = x; let _y: &mut u8 = y; } }"),
        ("hygiene", f"macro_rules! mk {{ ($a:ident) => {{ #[{P}] pub struct S {{ #[pin] pub $a: u8, pub b: u16 }} pub fn f(s: ::core::pin::Pin<&mut S>) {{ let x = s.project(); let _a: ::core::pin::Pin<&mut u8> = x.$a; let _b = x.b; }} }} }} mk!(b2);", ""),
        ("proj-in-macro", f"macro_rules! mk {{ () => {{ #[{P}(project = SP)] pub struct S {{ #[pin] pub a: u8, pub b: u16 }} pub fn f(s: ::core::pin::Pin<&mut S>) {{ let SP {{ a, b }} = s.project(); let _a: ::core::pin::Pin<&mut u8> = a; let _b: &mut u16 = b; }} }} }} mk!();", ""),
        ("self-macro", f"macro_rules! mk {{ ($e:expr) => {{ $e }} }} #[{P}(PinnedDrop)] pub struct S {{ #[pin] pub a: u8, pub b: u16 }} #[::pin_project::pinned_drop] impl PinnedDrop for S {{ fn drop(mut self: ::core::pin::Pin<&mut Self>) {{ let _ = mk!(self.as_mut()); }} }}", use0),
    ]
    return L


# ---------------------------------------------------------------- lints
def lint_names(deps):
    r = subprocess.run(["rustc", "-W", "help"], env=core.env(), capture_output=True, text=True)
    out = []
    for l in r.stdout.splitlines():
        m = re.match(r"\s+([a-z0-9-]+)\s+(allow|warn)\s+\S", l)
        if m:
            out.append(m.group(1))
        if "Lint groups provided by rustc" in l:
            break
    skip = {"unused-crate-dependencies", "unstable-features", "non-exhaustive-omitted-patterns", "multiple-supertrait-upcastable", "must-not-suspend", "fuzzy-provenance-casts", "lossy-provenance-casts", "implicit-provenance-casts", "unqualified-local-imports", "test-unstable-lint", "linker-messages", "linker-info", "default-overrides-default-fields"}
    return [x for x in out if x not in skip]


def lint_sets(ctx, progs, driver, flags, chunk=40):
    """program -> set of lints that fire in it (or None with a message when it does not compile)"""
    deps = ctx.deps()
    res = {}

    def one(batch):
        todo = list(batch)
        while todo and not core._hang:
            crate = core.Crate(todo, header=todo[0].crate_attrs)
            f = core._fname(".rs")
            open(f, "w").write(crate.text)
            cmd = [driver, "--edition", todo[0].edition, "--crate-type", "lib", "--error-format=json", "--emit=metadata", "-o", f + ".rmeta", "--extern", f"pin_project={deps.pin_project}",
                   "-L", f"dependency={deps.libdir}", "--extern", f"auxmac={deps.auxmac}"] + flags + [f]
            e = core.env()
            e["CLIPPY_ARGS"] = ""
            r = subprocess.run(core.limited(cmd, core.CPU_ONE if len(todo) == 1 else core.CPU_BATCH), env=e, capture_output=True, text=True)
            if r.returncode in (-24, 152):
                if len(todo) == 1:
                    raise core.Hang(todo[0])
                for p in todo:
                    one([p])
                return
            diags = [json.loads(l) for l in r.stderr.splitlines() if l.startswith("{")]
            os.unlink(f)
            if os.path.exists(f + ".rmeta"):
                os.unlink(f + ".rmeta")
            errs = [d for d in diags if d.get("level") == "error"]
            if r.returncode != 0:
                hit, loose = core.attribute(crate, f, errs)
                if not hit:
                    if len(todo) == 1:
                        res[todo[0]] = None
                        todo[0].diag = "; ".join(loose)[:400] or r.stderr[-300:]
                        return
                    m = len(todo) // 2
                    one(todo[:m])
                    todo = todo[m:]
                    continue
                for i in hit:
                    res[todo[i]] = None
                    todo[i].diag = "; ".join(hit[i])[:400]
                todo = [p for i, p in enumerate(todo) if i not in hit]
                continue
            for p in todo:
                res[p] = set()
            for d in diags:
                code = (d.get("code") or {}).get("code") if d.get("code") else None
                if not code:
                    continue
                hit, _ = core.attribute(crate, f, [d], levels=("warning", "error"))
                for i in hit:
                    res[todo[i]].add(code)
            return
    groups = {}
    for p in progs:
        groups.setdefault((p.edition, p.crate_attrs), []).append(p)
    bs = []
    for ps in groups.values():
        n = max(1, min(chunk, (len(ps) + core.JOBS - 1) // core.JOBS))
        bs += [ps[i:i + n] for i in range(0, len(ps), n)]
    with ThreadPoolExecutor(core.JOBS) as ex:
        list(ex.map(one, bs))
    return res


def lint_part(ctx, cases, driver, flags, part):
    """cases: (twin source, annotated source, edition, tag)"""
    tw, an = {}, []
    for t, a, ed, attrs, tag in cases:
        p = Prog(a, "ok", tag, edition=ed, crate_attrs=attrs)
        k = (t, ed, attrs)
        if k not in tw:
            tw[k] = Prog(t, "ok", "twin", edition=ed, crate_attrs=attrs)
        an.append((p, tw[k]))
    r1 = lint_sets(ctx, list(tw.values()), driver, flags)
    r2 = lint_sets(ctx, [p for p, _ in an], driver, flags)
    ctx.part(part, len(an))
    ctx.stats.states += len(an) + len(tw)
    ctx.stats.transitions += len(an) + len(tw)
    ctx.traces += len(an)
    for p, t in an:
        if r1[t] is None:
            raise core.EngineError(f"twin does not compile: {t.diag}\n{t.src}")
        if r2[p] is None:
            # confirm alone
            alone = lint_sets(ctx, [p], driver, flags)
            if alone[p] is None:
                ctx.bad(p.tag, f"rejected although it must be accepted: {p.diag}", p.src, edition=p.edition, crate_attrs=p.crate_attrs, mode="judge", expect="ok")
            continue
        extra = r2[p] - r1[t] - NOISE
        if extra:
            alone = lint_sets(ctx, [p], driver, flags)
            extra = (alone[p] or set()) - r1[t] - NOISE
            for x in sorted(extra):
                ctx.bad(p.tag, f"lint that fires only because of the attribute: [{x}]", p.src, edition=p.edition, crate_attrs=f"#![deny({x})]\n" + p.crate_attrs, mode="judge", expect="ok")


NOISE = set()
DOC = '#![doc = "d"]\n'


def lint_cases(ctx, docs=True):
    th = ctx.thorough
    out = []
    D = "/// d\n" if docs else ""
    VIS = ["pub", "pub(crate)", ""]
    FORMS = []
    for v in VIS:
        w = v + " " if v else ""
        for fv in (["pub ", ""] if not th else ["pub ", "pub(crate) ", ""]):
            FORMS += [
                (f"{D}#[derive(Debug)] $P {w}struct S<T, U> {{ {D}$p {fv}a: T, {D}{fv}b: U }}", "T, U", "struct"),
                (f"{D}#[derive(Debug)] $P {w}struct S<T, U>({D}$p {fv}T, {D}{fv}U);", "T, U", "struct"),
                (f"{D}#[derive(Debug)] $P {w}struct S<'a, T: 'a, U: ?Sized> where T: Clone {{ {D}$p {fv}a: &'a mut T, {D}{fv}b: Option<Box<U>>, {D}{fv}c: &'a mut u8 }}", "'a, T, U", "struct"),
                (f"{D}#[derive(Debug)] $P {w}struct S {{ {D}$p {fv}a: u8, {D}{fv}b: u64 }}", "", "struct"),
                (f"{D}#[derive(Debug)] $P {w}struct S<const N: usize> {{ {D}$p {fv}a: [u8; N], {D}{fv}b: [u64; N] }}", "N", "struct"),
                (f"{D}#[derive(Debug)] $P {w}struct S<T: ?Sized> {{ {D}{fv}b: u8, {D}$p {fv}a: T }}", "T", "unsized"),
            ]
        FORMS += [
            (f"{D}#[derive(Debug)] $P {w}enum S<T, U> {{ {D}A {{ {D}$p a: T, {D}b: U }}, {D}B({D}$p T, {D}U), {D}C }}", "T, U", "enum"),
            (f"{D}#[derive(Debug)] $P {w}enum S {{ {D}A {{ {D}$p a: u8, {D}b: [u64; 40] }}, {D}B({D}$p u8) }}", "", "enum"),
            (f"{D}#[derive(Debug)] $P {w}enum S<'a, T> {{ {D}A({D}$p &'a T), {D}B({D}$p &'a mut T, {D}u8) }}", "'a, T", "enum"),
        ]
    # items on which one specific lint is (or is not) silenced by the user
    FA = ["#[deprecated]", "#[deprecated = \"x\"]", "#[doc(hidden)]", "#[allow(dead_code)]", "#[cfg(all())]", "#[cfg_attr(all(), deprecated)]", "#[allow(non_snake_case)]"]
    for v in ("pub ", ""):
        for at in FA:
            n = "Aa" if "snake" in at else "aa"
            FORMS += [
                (f"{D}#[derive(Debug)] $P {v}struct S<T, U> {{ {D}{at} $p {v}{n}: T, {D}{v}b: U }}", "T, U", "struct"),
                (f"{D}#[derive(Debug)] $P {v}struct S<T, U> {{ {D}$p {v}a: T, {D}$p {at} {v}{n}: U }}", "T, U", "struct"),
                (f"{D}#[derive(Debug)] $P {v}struct S<T, U> {{ {D}$p {v}a: T, {D}{at} {v}{n}: U }}", "T, U", "struct"),
                (f"{D}#[derive(Debug)] $P {v}struct S<T, U>({D}{at} $p {v}T, {D}{at} {v}U);", "T, U", "struct"),
                (f"{D}#[derive(Debug)] $P {v}enum S<T, U> {{ {D}A {{ {D}$p {at} {n}: T, {D}{at} b: U }}, {D}B({D}$p {at} T, {D}{at} U), {D}C }}", "T, U", "enum"),
                (f"{D}#[derive(Debug)] $P {v}enum S<T, U> {{ {D}{at} A {{ {D}$p {n}: T, {D}b: U }}, {D}{at} B({D}$p T, {D}U), {D}{at} C }}", "T, U", "enum"),
            ]
        for at in FA + ["#[must_use]", "#[non_exhaustive]", "#[allow(non_camel_case_types)]", "#[allow(clippy::exhaustive_structs, clippy::exhaustive_enums)]", "#[allow(deprecated)]", "#[expect(missing_copy_implementations, reason = \"x\")]"]:
            FORMS += [
                (f"{D}{at} #[derive(Debug)] $P {v}struct S<T, U> {{ {D}$p {v}a: T, {D}{v}b: U }}", "T, U", "struct"),
                (f"{D}#[derive(Debug)] $P {at} {v}struct S<T, U> {{ {D}$p {v}Aa: T, {D}{v}b: U }}", "T, U", "struct"),
                (f"{D}#[derive(Debug)] $P {at} {v}struct S<T, U>({D}$p {v}T, {D}{v}U);", "T, U", "struct"),
                (f"{D}#[derive(Debug)] $P {at} {v}enum S<T, U> {{ {D}A {{ {D}$p aA: T, {D}b: U }}, {D}B({D}$p T, {D}U), {D}C_c }}", "T, U", "enum"),
            ]
        OLD = f"{D}#[deprecated] #[derive(Debug, Clone, Copy)] {v}struct Old;\n"
        FORMS += [
            (OLD + f"{D}#[allow(deprecated)] #[derive(Debug)] $P {v}struct S {{ {D}$p {v}a: Old, {D}{v}b: Option<Old> }}", "", "struct"),
            (OLD + f"{D}#[derive(Debug)] $P {v}struct S {{ {D}$p #[allow(deprecated)] {v}a: Old, {D}#[allow(deprecated)] {v}b: Option<Old> }}", "", "struct"),
            (OLD + f"{D}#[allow(deprecated)] #[derive(Debug)] $P {v}enum S {{ {D}A({D}$p Old), {D}B {{ {D}b: [Old; 3] }} }}", "", "enum"),
            (f"{D}#[derive(Debug)] $P {v}struct S<T, U> {{ {D}$p {v}_a: T, {D}{v}__b: U }}", "T, U", "struct"),
            (f"{D}#[derive(Debug)] $P {v}struct S<T, U> {{ {D}$p {v}a: Option<Box<Vec<T>>>, {D}{v}b: Option<&'static U>, {D}{v}c: bool, {D}{v}d: bool, {D}{v}e: bool, {D}{v}f: bool }}".replace("<T, U> {", "<T, U: 'static> {"), "T, U'", "struct"),
            (f"{D}#[derive(Debug)] $P {v}struct S<T, U>({D}$p {v}&'static mut &'static mut T, {D}{v}[(T, U); 300], {D}{v}Box<&'static U>);".replace("<T, U>(", "<T: 'static, U: 'static>("), "T', U'", "struct"),
            (f"{D}#[derive(Debug)] $P {v}struct S {{ {D}$p {v}a: Vec<Box<u8>>, {D}{v}b: Option<Option<u8>>, {D}{v}c: std::rc::Rc<String>, {D}{v}d: std::rc::Rc<Vec<u8>>, {D}{v}e: std::collections::LinkedList<u8>, {D}{v}f: std::rc::Rc<std::sync::Mutex<u8>> }}", "", "struct"),
            (f"{D}#[derive(Debug)] $P {v}struct S {{ {D}{v}g: std::rc::Rc<Box<u8>>, {D}{v}h: Option<Box<(u8, Vec<(u8, Option<Result<(u8, Vec<u8>), (u16, Vec<Box<[u8]>>)>>, [(u8, u8); 4])>)>>, {D}$p {v}i: &'static String, {D}{v}j: &'static Vec<u8>, {D}{v}k: &'static Box<u8> }}", "", "struct"),
            (f"{D}#[derive(Debug)] $P {v}enum S {{ {D}A({D}$p Vec<Box<u8>>, {D}Option<Option<u8>>), {D}B({D}std::rc::Rc<Box<u8>>, {D}Box<Vec<u8>>), {D}C({D}&'static mut &'static mut u8, {D}&'static Box<u8>) }}", "", "enum"),
            (f"{D}#[derive(Debug)] $P {v}enum S<T, U> {{ {D}SomeA({D}$p T), {D}SomeB({D}[u64; 100]), {D}SomeC({D}U) }}", "T, U", "enum"),
            (f"{D}#[derive(Debug)] $P {v}struct S<T, U> where T: Clone, U: Clone, T: Copy, {{ {D}$p {v}a: T, {D}{v}b: U }}", "T+, U+", "struct"),
            (f"{D}#[derive(Debug)] $P {v}struct S<T: Clone, U: Clone> where Vec<T>: Clone {{ {D}$p {v}a: T, {D}{v}b: U }}", "T+, U+", "struct"),
            (f"{D}#[derive(Debug)] $P {v}struct S<'l, 'm: 'l, T, U> {{ {D}$p {v}a: &'l T, {D}{v}b: &'m U }}", "'l, 'm, T, U", "struct"),
            (f"{D}#[derive(Debug)] $P {v}struct S<T, U> {{ {D}$p {v}a: core::marker::PhantomData<T>, {D}$p {v}b: core::marker::PhantomData<U> }}", "T, U", "struct"),
            (f"{D}#[derive(Debug)] $P {v}struct S({D}$p {v}u8);", "", "struct"), (f"{D}#[derive(Debug)] $P {v}struct S {{ {D}$p {v}state: u8, {D}{v}state_len: u8, {D}{v}state_x: u8 }}", "", "struct"),
            (f"{D}#[derive(Debug)] $P {v}enum S {{ {D}A({D}$p u8) }}", "", "enum"), (f"{D}#[derive(Debug)] $P {v}enum S {{ {D}A {{ {D}x: u8 }}, {D}B }}", "", "enum"),
        ]
    A_S = ["", "(project = SP)", "(project = SP, project_ref = SR)", "(project_replace)", "(project = SP, project_ref = SR, project_replace = SO)", "(!Unpin)", "(PinnedDrop)", "(UnsafeUnpin)"]
    A_E = ["", "(project = SP)", "(project = SP, project_ref = SR)", "(project = SP, project_ref = SR, project_replace = SO)", "(!Unpin)", "(PinnedDrop, project = SP)", "(UnsafeUnpin)"]
    for d, g, k in FORMS:
        for a in (A_E if k == "enum" else A_S):
            if k == "unsized" and "replace" in a:
                continue
            t = d.replace("$P ", "").replace("$p ", "")
            s = d.replace("$P", f"#[::pin_project::pin_project{a}]").replace("$p", "#[pin]")
            tw, an = t + "\n", s + "\n"
            if "PinnedDrop" in a:
                gd = {"T, U": "<T, U>", "'a, T, U": "<'a, T: 'a + Clone, U: ?Sized>", "": "", "N": "<const N: usize>", "T": "<T: ?Sized>", "'a, T": "<T>", "T, U'": "<T, U: 'static>", "T', U'": "<T: 'static, U: 'static>", "T+, U+": None, "'l, 'm, T, U": "<'l, 'm: 'l, T, U>"}[g]
                if gd is None:
                    continue
                if g == "'l, 'm, T, U":
                    gd, g = "<T, U>", "'_, '_, T, U"
                gu = "<" + g.replace("'", "").replace("+", "") + ">" if g else ""
                if g.startswith("'_"):
                    gu = f"<{g}>"
                if g == "'a, T":
                    gu = "<'_, T>"
                if g == "'a, T, U":
                    gd, gu = "<T: Clone, U: ?Sized>", "<'_, T, U>"
                tw += f"{D}trait Pd {{ {D}fn drop(self: Pin<&mut Self>); }} impl{gd} Pd for S{gu} {{ fn drop(self: Pin<&mut Self>) {{}} }}\nimpl{gd} Drop for S{gu} {{ fn drop(&mut self) {{}} }}\n"
                an += f"#[::pin_project::pinned_drop] impl{gd} PinnedDrop for S{gu} {{ fn drop(self: Pin<&mut Self>) {{}} }}\n"
            hdr = "//! d\nuse core::pin::Pin;\n" if "PinnedDrop" in a else "//! d\n"
            out.append((hdr + tw, hdr + an, k, f"{a}/{d[:60]}"))
    return out


def run(ctx):
    th = ctx.thorough
    progs = []

    def head(setting, ed):
        h15 = HEAD15.replace(" extern crate core;", "") if "no_std" in setting else HEAD15
        return SETTINGS[setting] + (h15 if ed == "2015" else "") + "\n"

    def client_for(setting, cl):
        return cl

    # ---- every item in every edition and crate setting, plainly
    def plain(c):
        n = c.pick("item", list(ITEMS) + ["unsafe-impl"], free=True)
        ed = c.pick("edition", ["2021", "2015", "2018", "2024"], free=True)
        st = c.pick("setting", list(SETTINGS), free=True)
        pl = c.pick("place", list(PLACES), free=True)
        if n == "unsafe-impl" and "forbid" in st:
            raise Prune
        if not th and pl not in ("module", "fn", "macro-plain") and (st not in ("std", "forbid_unsafe") or ed not in ("2015", "2021", "2024")):
            raise Prune
        i, cl = text(UU if n == "unsafe-impl" else ITEMS[n])
        # an impl in a function for a type of that function is fine; array-len and macro-item need items only
        src = PLACES[pl].replace("$I", i).replace("$C", cl)
        return Prog(src, "ok", f"env/{n}/{pl}/{st}", edition=ed, crate_attrs=head(st, ed))
    progs += ctx.explore(plain)

    # ---- attribute spelling
    SP = [("use pin_project::{pin_project, pinned_drop};", "pin_project", "pinned_drop"), ("use pin_project::pin_project as pp; use pin_project::pinned_drop as pd;", "pp", "pd"), ("use ::pin_project as zz;", "zz::pin_project", "zz::pinned_drop"),
          ("pub mod re { pub use pin_project::{pin_project, pinned_drop}; }", "self::re::pin_project", "self::re::pinned_drop"), ("pub mod re { pub use pin_project::*; } use self::re::*;", "pin_project", "pinned_drop"), ("", "r#pin_project::r#pin_project", "::pin_project::r#pinned_drop")]
    for pre, P, D in SP:
        for n, it in ITEMS.items():
            for ed in ("2018", "2021", "2024"):
                i, cl = text(it, P, D)
                if "pinned_drop" in pre and "$D" not in it[1]:
                    pre2 = "#[allow(unused_imports)] " + pre.replace("; use", "; #[allow(unused_imports)] use") if not pre.startswith("pub mod") else pre.replace("pub use", "#[allow(unused_imports)] pub use")
                else:
                    pre2 = pre
                progs.append(Prog(pre2 + "\n" + i + cl, "ok", f"spelling/{P}/{n}", edition=ed, crate_attrs=head("std", ed)))

    # ---- shadowing
    def shadow(c):
        k = c.pick("shadow", list(range(len(SHADOW))) + ["all"], free=True)
        n = c.pick("item", list(ITEMS), free=True)
        ed = c.pick("edition", ["2021", "2015"] if not th else ["2021", "2015", "2018", "2024"], free=True)
        st = c.pick("setting", ["std", "no_prelude"] if not th else list(SETTINGS), free=True)
        where = c.pick("where", ["same", "glob", "fn"], free=True)
        if not th and where != "same" and st != "std":
            raise Prune
        if k == "all":
            sh = " ".join(s for s in SHADOW if "Ev" not in s and "macro_rules" not in s and "struct S" not in s)
        else:
            sh = SHADOW[k]
        if n == "where" and "struct usize" in sh:
            raise Prune  # the type of the user's own const parameter
        i, cl = text(ITEMS[n])
        if where == "same":
            src = sh + "\n" + i + cl
        elif where == "glob":
            if "macro_rules" in sh:
                raise Prune
            src = f"pub mod sh {{ {sh} }} #[allow(unused_imports)] use self::sh::*;\n" + i + cl
        else:
            src = f"#[allow(dead_code, unused_macros)] pub fn host() {{ {sh}\n {i} {cl} }}\n"
        return Prog(src, "ok", f"shadow/{k if k == 'all' else SHADOW[k][:40]}/{where}/{n}", edition=ed, crate_attrs=head(st, ed))
    shp = ctx.explore(shadow)
    # only programs whose twin (no attribute, no client) is itself fine in that environment count
    progs += shp

    for tag, a, b in frag_programs():
        for ed in ("2015", "2018", "2021", "2024"):
            for st in ("std", "no_std", "forbid_unsafe"):
                progs.append(Prog(a + "\n" + b + "\n", "ok", f"fragment/{tag}", edition=ed, crate_attrs=head(st, ed)))
    # other crates under the names of the standard ones
    REN = [("core",), ("alloc",), ("std",), ("core", "alloc"), ("core", "alloc", "std")]

    def renamed(c):
        names = c.pick("renamed", REN, free=True)
        ed = c.pick("edition", ["2021", "2015", "2018", "2024"], free=True)
        st = c.pick("setting", ["no_std", "std", "no_std_forbid"], free=True)
        n = c.pick("item", list(ITEMS), free=True)
        pl = c.pick("place", ["module", "fn", "submodule", "macro-plain"], free=True)
        if ("std" in names and st == "std") or ("core" in names and st != "std" and ed == "2015"):
            raise Prune  # the name is taken by the compiler's own `extern crate`
        i, cl = text(ITEMS[n])
        src = PLACES[pl].replace("$I", i).replace("$C", cl).replace("::core::", "::zz_core::")
        h = SETTINGS[st] + "#![allow(unused_extern_crates)]\n" + "".join(f"extern crate pin_project as {x};\n" for x in names) + "extern crate core as zz_core;\n" + ("extern crate pin_project;\n" if ed == "2015" else "")
        return Prog(src, "ok", f"renamed/{'+'.join(names)}/{n}/{pl}/{st}", edition=ed, crate_attrs=h)
    progs += ctx.explore(renamed)
    # strict lint levels as hard errors
    for n, it in ITEMS.items():
        for ed in ("2018", "2021", "2024"):
            i, cl = text(it)
            i = i.replace("T: 'a", "T")  # explicit_outlives_requirements is about the user's bound
            progs.append(Prog(i, "ok", f"strict/{n}", edition=ed, crate_attrs=LINTS))
            progs.append(Prog(i, "ok", f"strict-nostd/{n}", edition=ed, crate_attrs="#![no_std]\n#![forbid(unsafe_code)]\n" + LINTS))
    ctx.judge(progs, part="environments", header="", chunk=60)

    # ---- negative controls: the harness sees warnings and forbidden code
    neg = [Prog("pub fn f() { let x = 3; }", "err", "control/warning", crate_attrs=SETTINGS["std"]), Prog("pub fn f(x: *const u8) -> u8 { unsafe { *x } }", "err", "control/unsafe", crate_attrs=SETTINGS["forbid_unsafe"]),
           Prog("pub fn f() -> Option<u8> { None }", "err", "control/prelude", crate_attrs=SETTINGS["no_prelude"]), Prog("pub fn f() -> Vec<u8> { loop {} }", "err", "control/no_std", crate_attrs=SETTINGS["no_std"]),
           Prog(text(UU)[0], "err", "control/unsafe-impl", crate_attrs=SETTINGS["forbid_unsafe"])]
    ctx.judge(neg, part="controls", header="")

    # ---- every lint
    cases = lint_cases(ctx)
    flags = []
    for l in lint_names(ctx.deps()):
        flags += ["-W", l]
    flags += ["-W", "unused", "-W", "nonstandard_style", "-W", "future_incompatible", "-W", "rust_2018_idioms"]
    eds = ["2018", "2021", "2024"] if th else ["2018", "2021", "2024"]
    lint_part(ctx, [(t, a, ed, DOC, f"lint/{ed}/{tag}") for t, a, k, tag in cases for ed in eds], "rustc", flags, "rustc-lints")
    clip = ["-W", "clippy::all", "-W", "clippy::pedantic", "-W", "clippy::nursery", "-W", "clippy::restriction", "-A", "clippy::blanket_clippy_restriction_lints", "-A", "clippy::allow_attributes", "-A", "clippy::allow_attributes_without_reason", "-A", "clippy::arbitrary_source_item_ordering"]
    lint_part(ctx, [(t, a, ed, DOC, f"clippy/{ed}/{tag}") for t, a, k, tag in cases for ed in (["2021"] if not th else ["2018", "2021", "2024"])], "clippy-driver", clip, "clippy-lints")
