"""C20: every input gives either an expansion or a proper error, never a macro crash."""
from core import Prog
import core, itertools, os, re
from concurrent.futures import ThreadPoolExecutor

BOUNDS = ("all single-token edits (delete, duplicate, swap, replace by and insert from an alphabet) of a corpus of annotated items and pinned_drop impls; all argument token sequences of length <=3 (thorough <=4) "
          "over a 22-token alphabet on structs and enums, <=2 (<=3) on #[pin] and #[pinned_drop]; every item kind and position under both attributes; every pair of cooperating macros; large and deeply nested items; "
          "every item and impl made of a regular one by replacing <=2 of its components (visibility, generics, bounds, where clauses, field and self types, signature parts, attributes) by every member of an alphabet of well-formed syntax. "
          "Oracle: no macro panic, no compiler crash, no unparsable output, no time-out")

PRE = "use core::pin::Pin; use core::marker::{PhantomData, PhantomPinned}; use pin_project::{pin_project, pinned_drop};\n"
TOK = re.compile(r"\s*(?:(r#[A-Za-z_]\w*|[A-Za-z_]\w*)|('[A-Za-z_]\w*(?!'))|(\d\w*|\"[^\"]*\"|'.')|(::|->|=>|\.\.=|\.\.|&&|==)|([^\s\w]))")
CL = {"(": ")", "[": "]", "{": "}"}


def lex(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        out.append(m.group(0).strip())
        i = m.end()
    return out


def tree(ts):
    """nested lists; a group is (open, [children])"""
    def go(i, end):
        r = []
        while i < len(ts):
            t = ts[i]
            if t in CL:
                g, i = go(i + 1, CL[t])
                r.append((t, g))
            elif t == end:
                return r, i + 1
            else:
                r.append(t)
                i += 1
        assert end is None
        return r, i
    return go(0, None)[0]


def text(t):
    return " ".join(x if isinstance(x, str) else x[0] + " " + text(x[1]) + " " + CL[x[0]] for x in t)


def edits(t, ins, rep):
    """all trees at distance one"""
    for i, x in enumerate(t):
        a, b = t[:i], t[i + 1:]
        yield a + b
        yield a + [x, x] + b
        if b:
            yield a + [b[0], x] + b[1:]
        for r in rep:
            if r != x:
                yield a + [r] + b
        for r in ins:
            yield a + [r] + t[i:]
        if not isinstance(x, str):
            yield a + x[1] + b          # group opened
            yield a + [(x[0], [])] + b  # group emptied
            for d in CL:
                if d != x[0]:
                    yield a + [(d, x[1])] + b
            for y in edits(x[1], ins, rep):
                yield a + [(x[0], y)] + b
    for r in ins:
        yield t + [r]


ITEMS = [
    "#[pin_project] struct S<T> { #[pin] a: T, b: u8 }",
    "#[pin_project(project = P)] pub(crate) struct S<'a, T: 'a, const N: usize>(#[pin] &'a T, pub [u8; N]) where T: Clone;",
    "#[pin_project(project = P, project_ref = R, project_replace = O)] enum S<T> { A(#[pin] T, u8), B { #[pin] x: Self2, y: T }, C }",
    "#[pin_project(PinnedDrop, !Unpin)] #[repr(C, align(8))] struct S { #[doc = \"x\"] #[pin] a: fn(&Self) -> u8, b: <Vec<u8> as IntoIterator>::Item }",
    "#[pin_project(UnsafeUnpin, project_replace)] struct S<T: ?Sized + Tr<Out = u8>> where for<'x> T: Fn2<'x> { b: (u8, !), #[pin] a: dyn Tr<T> + 'static }",
]
IMPLS = [
    "#[pinned_drop] impl<T> PinnedDrop for S<T> { fn drop(self: Pin<&mut Self>) { let _ = self.project(); } }",
    "#[pinned_drop] impl<'a, T: Tr> PinnedDrop for m::S<'a, T> where T: Clone { #[inline] fn drop(mut self: ::core::pin::Pin<&mut Self>) -> () { let y = [Self::N; 3]; if let Self::A { x, .. } = *self { fn f(self_: u8) {} Self { a: 1 }; let z: <Self as Tr>::A = |q: &Self| -> Self { q.0 }; } } }",
    # tokens of macro calls are the called macro's business: only crashes are judged there
    "#[pinned_drop] impl<T> PinnedDrop for S<T> { fn drop(mut self: Pin<&mut Self>) { println!(\"{}\", Self::N); m!(self, Self { a: 1 }, [Self::B; 3], self::x, fn f(self) -> Self {}, if let Self::A(x) = self {}); } }",
    "#[pinned_drop()] unsafe impl PinnedDrop for (S,) { fn drop(&mut self) { self.x; Self; } }",
]
INS = ["self", "Self", "pin", "!", "=", ",", ";", "::", "<", ">", "'a", "3", "&", "*", "?", ":", "#", "|", "->", ("(", []), ("[", []), ("{", []), ("(", ["u8"]), "impl", "dyn", "fn", "where", "mut", "const", "unsafe", "pub", "default", "_", "crate", "struct", "enum", "union", "u8", "macro_rules", "async", "for", "type", "\"s\"", "..", "$crate"]
INS = [x for x in INS if x != "$crate"]
REP = ["self", "Self", "r#struct", "_", "u8", "'a", "3", ",", "::", "!", ("(", []), ("{", []), ("[", [])]

ARGTOK = ["PinnedDrop", "Replace", "project", "project_ref", "project_replace", "UnsafeUnpin", "!", "Unpin", "=", ",", "S", "X", "\"s\"", "(X)", "1", "::", "'a", "_", "r#fn", "Self", "crate", "{}"]
KINDS = {
    "struct": "struct S<T> { #[pin] a: T, b: u8 }", "tuple": "struct S<T>(#[pin] T, u8);", "unit": "struct S;", "empty": "struct S {}", "empty-tuple": "struct S();", "enum": "enum S<T> { A(#[pin] T), B }", "enum-empty": "enum S {}", "enum-unit": "enum S { A, B }", "enum-disc": "enum S { A = 1, B }",
    "enum-disc-tuple": "#[repr(u8)] enum S { A(u8) = 1, B = 3 }", "union": "union S { a: u8, b: u16 }", "fn": "fn s() {}", "const-fn": "const unsafe extern \"C\" fn s<T>(x: u8) -> u8 where T: Copy { x }", "async-fn": "async fn s() {}", "trait": "trait S { fn a(); const N: u8; type T; }", "unsafe-trait": "unsafe auto trait S {}", "trait-alias": "trait S = Clone;",
    "impl": "impl S2 { fn a() {} }", "impl-trait": "impl Tr for S2 { type T = u8; }", "neg-impl": "impl !Tr for S2 {}", "mod": "mod s {}", "mod2": "mod s { struct S; }", "use": "use core::pin;", "use-glob": "use core::*;", "extern-crate": "extern crate core;", "const": "const S: u8 = 1;", "const-anon": "const _: () = ();", "static": "static mut S: u8 = 1;",
    "type": "type S<T> = Vec<T>;", "extern": "extern \"C\" { fn f(); static X: u8; type T; }", "macro_rules": "macro_rules! s { () => {} }", "macro-call": "mk! { struct Q; }", "macro2": "macro s() {}", "global-asm": "core::arch::global_asm!(\"\");", "pd-impl": "impl PinnedDrop for S2 { fn drop(self: Pin<&mut Self>) {} }",
    "self-struct": "struct S { a: Box<Self>, #[pin] b: [u8; Self::N] }", "raw": "struct r#type<r#T> { #[pin] r#fn: r#T }", "default-field": "struct S { a: u8 = 3, #[pin] b: u8 }", "anon-union": "struct S { _: union { a: u8 }, #[pin] b: u8 }", "vis-in": "pub(in crate) struct S { pub(in super::super) #[pin] a: u8, pub(in self) b: u8 }",
    "unsafe-field": "struct S { unsafe a: u8, #[pin] b: u8 }", "variant-vis": "enum S { pub A(#[pin] u8), B }", "pat-ty": "struct S { #[pin] a: core::pattern_type!(u32 is 1..), b: u8 }", "verbatim-ty": "struct S { #[pin] a: for<'a> fn(&'a mut Self, ...), b: impl Copy, c: _, d: typeof(1), e: dyn* Tr, f: unsafe<'a> &'a u8 }",
    "attrs": "#[inline] #[cfg(all())] #[derive(Clone)] #[must_use = \"x\"] #[pin] struct S { #[pin] #[pin] a: u8 }", "where-only": "struct S<T>(#[pin] T) where;", "gen-attrs": "struct S<#[cfg(all())] 'a, #[pin] T: 'a = u8>(#[pin] &'a T);", "const-def": "struct S<const N: usize = { 1 + 2 }, const B: bool = true>(#[pin] [u8; N]);", "higher": "struct S<T>(#[pin] T) where for<'pin, '__pin> &'pin T: Tr, Self: Sized, (): Sized, 'static: 'static;",
    "assoc": "struct S<T: Tr<A: Copy, B = u8, C<'static> = Self>>(#[pin] T);", "bare-trait": "struct S(#[pin] Box<Tr + Send>, (dyn Tr));", "qself": "struct S(#[pin] <Self as Tr>::A, <u8>::B);", "macro-ty": "struct S(#[pin] mk!(u8), mk!{Self}, [u8; mk!(Self::N)]);", "block-ty": "struct S(#[pin] [u8; { struct Self2; impl Self2 { fn f(self) {} } 3 }]);",
}
POSITIONS = {
    "item": "$X", "fn-stmt": "fn h() { $X }", "let": "fn h() { $A let x = 1; }", "expr": "fn h() { let x = $A 1; }", "block": "fn h() { $A { } }", "arm": "fn h() { match 1 { $A _ => {} } }", "field": "struct H { $A a: u8 }", "variant": "enum H { $A A(u8) }", "param": "fn h($A a: u8) {}", "generic": "struct H<$A T>(T);", "method": "impl H2 { $A fn m(self: Pin<&mut Self>) {} }",
    "assoc": "trait H { $A fn m(); $A const C: u8; $A type T; }", "foreign": "extern \"C\" { $A fn m(); }", "inner": "mod q { #![pin_project] struct S { #[pin] a: u8 } }", "struct-expr": "fn h() { H2 { $A a: 1 } }", "pat-field": "fn h(H2 { $A a }: H2) {}", "tuple-field": "struct H($A u8);", "closure-param": "fn h() { |$A x: u8| {}; }", "crate-fn": "$A fn h() {}", "stmt-macro": "fn h() { $A mk!{}; }",
    "array-elem": "fn h() { [$A 1]; }", "call-arg": "fn h() { g($A 1); }",
}
ATTRS = ["#[pin_project]", "#[pin_project()]", "#[pin_project(PinnedDrop)]", "#[pin_project(project = P, project_ref = R, project_replace = O)]", "#[pin_project{UnsafeUnpin}]", "#[pin_project[project = P]]", "#[pin_project = \"x\"]", "#[pinned_drop]", "#[pinned_drop()]", "#[pinned_drop(x)]", "#[pinned_drop = 1]", "#[pin_project] #[pinned_drop]", "#[pinned_drop] #[pin_project]", "#[pin_project] #[pin_project]",
         "#[pin_project] #[pin_project(project = Q)]", "#[pinned_drop] #[pinned_drop]", "#[pin_project] #[derive(Clone)]", "#[unsafe(pin_project)]", "#[cfg_attr(all(), pin_project)]", "#[derive(pin_project)]"]
AUX = ["add_repr(C)", "add_repr(packed)", "add_repr2(C)", "add_cfg_repr(C)", "append_attr(pin)", "append_attr(pin(__private()))", "append_attr(pin(x))", "append_attr(pin(__private(project = Q)))", "append_attr(repr(C))", "add_to_body(#[pin] z: u8,)", "add_to_body(#[pin] u8,)", "add_to_body(#[pin] Z(u8),)", "strip_fields(pin)", "strip_item(pin)", "strip_item(derive)", "mark_first(pin)", "mark_first(pin())", "mark_first(pin(__private()))", "identity"]
PANIC = re.compile(r"panicked|produced unparsable|internal compiler error|overflowed its stack")
SYNTAX = re.compile(r"^(?!expected (derive macro|non-macro attribute|attribute|unsafe attribute))(expected|unexpected|macro expansion ignores|unknown start|missing|mismatched|expected one of|no rules expected)")


TYF = ["(S)", "((S))", "(S<T>)", "&S", "&mut S", "&'a S", "*const S", "[S]", "[S; 1]", "(S, S)", "(S,)", "()", "!", "_", "dyn Tr", "dyn Tr + Send", "(dyn Tr)", "impl Tr", "fn(S)", "for<'x> fn(&'x S)", "mk!(S)", "mk! { S }", "<S as Tr>::A", "<m::S>::A", "S::<u8>", "::S", "Self", "S<Self>", "Self::A", "(Self)", "crate::S", "self::S", "super::S", "m::S<'_, T>", "S<'_>", "S<'static, 3, { 4 }>", "S<A = u8>", "S(u8) -> u8",
       "S<T>::A", "r#S", "[(); { Self::N }]", "Pin<&mut Self>", "Box<(S)>", "&(S)", "[(Self); 2]", "for<'x> Tr<'x>", "Tr + Send", "'static + Tr", "dyn", "mut S", "unsafe S", "S?", "3", "'a", "\"s\"", "{ S }", "", "$t"]
IMPL_DEV = {
    "self": TYF,
    "trait": ["(PinnedDrop)", "!PinnedDrop", "?PinnedDrop", "PinnedDrop<u8>", "PinnedDrop<Self>", "PinnedDrop()", "PinnedDrop(u8) -> u8", "::PinnedDrop", "pin_project::PinnedDrop", "m::PinnedDrop", "r#PinnedDrop", "Drop", "PinnedDrop + Send", "for<'x> PinnedDrop", "const PinnedDrop", "dyn PinnedDrop", "<S as PinnedDrop>", "mk!(PinnedDrop)", "'a", "&PinnedDrop", "[PinnedDrop]", "", "$t"],
    "head": ["unsafe impl", "default impl", "const impl", "impl const", "impl unsafe", "async impl", "pub impl", "impl<>", "impl<T>", "impl<'a, T: 'a>", "impl<const N: usize>", "impl<const N: usize = 3>", "impl<T = u8>", "impl<#[pin] T>", "impl<'a: 'a + 'a, T: ?Sized + for<'x> Tr<'x>>", "impl<T: PinnedDrop, {}>", "#[pin] impl", "#[cfg(any())] impl", "#![x] impl", "impl!", "struct", ""],
    "where": ["where", "where T: Tr", "where Self: Sized", "where Self: Tr<Self>, (Self): Sized, [Self; 3]: Sized,", "where for<'x> &'x Self: Tr", "where 'a: 'static", "where T: ?Sized +", "where T = u8", "where :", "where mk!(S): Tr", "where <Self as Tr>::A: Copy, Self::B: Copy", "-> u8"],
    "qual": ["unsafe", "const", "async", "extern \"C\"", "extern", "pub", "pub(crate)", "pub(self)", "default", "default unsafe", "async unsafe extern \"C\"", "#[inline]", "#[pin]", "#[cfg(any())]", "#[pinned_drop]", "/// doc\n", "safe", "gen", "pub pub"],
    "name": ["drop<T>", "drop<>", "drop<'x>", "drop<const N: u8>", "r#drop", "drop_", "r#fn", "Self", "self", "_", "drop::drop", "drop<T: Tr>", "", "3"],
    "recv": ["self", "&self", "&mut self", "mut self", "&'a self", "&'a mut self", "& mut mut self", "&(self): Pin<&mut Self>", "ref self: Pin<&mut Self>", "self @ _: Pin<&mut Self>", "(self): Pin<&mut Self>", "_: Pin<&mut Self>", "this: Pin<&mut Self>", "Self { .. }: Pin<&mut Self>", "#[pin] self: Pin<&mut Self>", "#[cfg(any())] self: Pin<&mut Self>", "self: Pin<&mut Self>,", ",", "", "...", "self: Pin<&mut Self>, ...",
             "self: Pin<&mut Self>, self: Pin<&mut Self>", "x: u8, self: Pin<&mut Self>", "self: Pin<&mut Self>, x: u8", "r#self: Pin<&mut Self>", "self: (Pin<&mut Self>)", "self: Pin<(&mut Self)>", "self: Pin<&mut (Self)>", "self: Pin<&mut S>", "self: Pin<&mut Self::A>", "self: Pin<&'a mut Self>", "self: Pin<&Self>", "self: Pin<&mut Self, u8>", "self: Pin<u8, &mut Self>", "self: Pin<>", "self: Pin", "self: Pin()", "self: Pin(&mut Self)", "self: Pin<P = &mut Self>", "self: Pin<{ 3 }>",
             "self: Pin<'a>", "self: Pin<'a, &mut Self>", "self: Pin<Pin<&mut Self>>", "self: &mut Self", "self: _", "self: !", "self: mk!(Pin<&mut Self>)", "self: <Pin<&mut Self> as Tr>::A", "self: <Self>::A", "self: impl Tr", "self: dyn Tr", "self: Pin<&mut Self> + Send", "self: 3", "self:", "self: ::Pin<&mut Self>", "self: a::b::Pin<&mut Self>", "self: Pin<&mut Self>::A", "self: Pin::<&mut Self>", "self: Pin<&mut Self<T>>", "self: $t", "mut self: Pin<&mut $t>"],
    "ret": ["-> ()", "-> (())", "-> u8", "-> !", "-> _", "-> Self", "-> impl Tr", "-> ((), ())", "-> mk!()", "-> dyn Tr", "->", "-> $t", "where Self: Sized", "-> () where Self: Sized", "where", "-> [(); 0]", "-> &()"],
    "body": [";", "{}", "{ {} }", "= {}", "{ mk! { self } }", "{ #![allow(unused)] }", "{ return; }", "{ self }", "{ Self }", "{ $t }", "{ fn __drop_inner() {} }", "{ struct __drop_inner; }", "{ use self::S; }", "{ let Self = self; }", "{ Self::A; let x: Self::B = Self { a: 1 }; Self::C(1, Self); if let Self::D { .. } = self {} mk!(Self::A); }", "", "{ 3 } { 4 }", "mk! {}", "{ async move { self } }", "{ #[cfg(any())] self; }", "{ let __self = self; }", "{ unsafe { self } }", "{ 'a: { break 'a; } }"],
    "items": ["$F $F", "", ";", "$F ;", "const N: u8 = 1; $F", "$F const N: u8 = 1;", "type A = Self; $F", "$F type A;", "mk! {} $F", "$F mk! {}", "mk!(); $F", "mk!($F);", "#[cfg(any())] $F $F", "#![allow(unused)] $F", "fn other() {} $F", "$F fn other(&self) {}", "struct S; $F", "use x; $F", "static X: u8 = 1; $F", "3", "$F }{", "fn drop(); $F", "const fn", "unsafe", "type drop = u8;", "const drop: u8 = 1;"],
}
IMPL_DEV["items"].remove("$F }{")
ITEM_DEV = {
    "vis": ["pub", "pub(crate)", "pub(self)", "pub(super)", "pub(in crate)", "pub(in self)", "pub(in super::super)", "pub()", "pub(3)", "pub(in)", "crate", "priv", "pub pub", "unsafe", "default", "$v"],
    "kw": ["enum", "union", "struct struct", "fn", "trait", "type", "const", "mod", "", "struct!", "auto", "static", "extern"],
    "name": ["r#struct", "Self", "self", "_", "S::A", "3", "'a", "", "r#S", "T", "__S", "S!", "pin_project", "$i"],
    "gen": ["<>", "<T>", "<'a>", "<T, 'a>", "<T = u8>", "<T: >", "<T: ?Sized>", "<T: ~const Tr>", "<const N: usize>", "<const N: usize = 3>", "<const N: usize = { 3 }>", "<const N>", "<T: Tr<A = Self>>", "<T: Tr<Self>>", "<'a: 'a>", "<'static>", "<'_>", "<_>", "<T, T>", "<T: 'a + 'b>", "<T: for<'x> Fn(&'x Self) -> Self>", "<#[pin] T>", "<#[cfg(any())] T>", "<T: (Tr)>", "<T: ?Tr>", "<T: use<T>>", "<", "<T", "()", "<impl T>", "<T: $b>", "<T: mk!(Tr)>", "<Self>", "<T: Self>", "<T = Self>", "<const N: Self>", "<'pin, 'pin_, T>", "<const N: usize = { Self::N }>"],
    "where": ["where", "where T: Tr", "where Self: Sized", "where Self: Tr<Self>, (Self): Sized,", "where for<'x> &'x Self: Tr", "where 'a: 'static", "where T: ?Sized +", "where T = u8", "where :", "where mk!(S): Tr", "where <Self as Tr>::A: Copy", "where u8: Copy, Self::A: Copy", "where T:", "where where", "where $t: Tr", "where [(); { Self::N }]: Sized"],
    "ty": TYF,
    "fattr": ["", "#[pin] #[pin]", "#[pin()]", "#[pin = 1]", "#[pin = \"x\"]", "#[pin(x)]", "#[pin::pin]", "#[::pin]", "#[crate::pin]", "#[Pin]", "#[r#pin]", "#[unsafe(pin)]", "#[cfg(any())] #[pin]", "#[cfg_attr(all(), pin)]", "#[cfg_attr(all(), pin, pin)]", "#[doc = \"x\"] #[pin]", "#![pin]", "#[pin] pub", "pub #[pin]", "#[pin] mut", "#[pin] unsafe", "#[pin(__private())]", "#[pin(__private(project = Q))]", "#[$m]"],
    "rest": ["", ",", ", b: u8", ", b: u8,", ",,", "; b: u8", ", #[pin] b: u8 = 3", ", b", ", ..", ", _: u8", ", b: u8, b: u8", ", #[pin]", ", #[cfg(any())] b: u8", ", #[cfg(any())] #[pin] b: dyn Tr", ", mk!()", ", pub b: u8", ", b: Self", ", #[pin] b: [u8; { struct Q; 3 }]", ", r#b: u8", ", a: u8"],
}


def dev_programs(n):
    """every impl / item with at most n deviating components"""
    frag = {"$t": "ty", "$v": "vis", "$i": "ident", "$b": "path", "$m": "meta"}

    def finish(x, tag):
        used = [f for f in frag if f in x]
        if used:
            val = {"$t": "S", "$v": "pub(crate)", "$i": "S", "$b": "Tr", "$m": "pin"}
            return Prog(PRE + "macro_rules! mkf { (" + " ; ".join(f"{f}:{frag[f]}" for f in used) + ") => { " + x + " } }\nmkf! { " + " ; ".join(val[f] for f in used) + " }\n", "ok", tag)
        return Prog(PRE + "mk! { " + x + " }\n", "ok", tag)
    for k in range(n + 1):
        for cs in itertools.combinations(IMPL_DEV, k):
            for vs in itertools.product(*(IMPL_DEV[c] for c in cs)):
                d = dict(zip(cs, vs))
                f = f"{d.get('qual', '')} fn {d.get('name', 'drop')}({d.get('recv', 'self: Pin<&mut Self>')}) {d.get('ret', '')} {d.get('body', '{ let _ = &self; }')}"
                x = f"#[pinned_drop] {d.get('head', 'impl')} {d.get('trait', 'PinnedDrop')} for {d.get('self', 'S')} {d.get('where', '')} {{ {d.get('items', '$F').replace('$F', f)} }}"
                yield finish(x, f"impl-components/{d}")
        for cs in itertools.combinations(ITEM_DEV, k):
            for vs in itertools.product(*(ITEM_DEV[c] for c in cs)):
                d = dict(zip(cs, vs))
                h = f"{d.get('vis', '')} {d.get('kw', 'struct')} {d.get('name', 'S')}{d.get('gen', '')}"
                fl = f"{d.get('fattr', '#[pin]')} a: {d.get('ty', 'u8')} {d.get('rest', '')}"
                yield finish(f"#[pin_project(project = P, project_replace = O)] {h} {d.get('where', '')} {{ {fl} }}", f"item-components/{d}")
                if k < 2 or n > 2:
                    yield finish(f"#[pin_project] {h} ({fl.replace('a: ', '', 1)}) {d.get('where', '')};", f"item-components/{d}")
                    yield finish(f"#[pin_project(project = P)] {h.replace('struct', 'enum')} {d.get('where', '')} {{ A {{ {fl} }}, B }}", f"item-components/{d}")


def strip_attrs(src):
    """the twin: the same attributes, but meaningless ones"""
    s = re.sub(r"(#\s*!?\s*\[\s*|unsafe\(|all\(\), )(pin_project|pinned_drop|pin)\b", r"\1rustfmt::\2", src)
    return s.replace("#[derive(pin_project)]", "#[rustfmt::pp]")


uncoded = set()  # programs with errors of the parser


def examine(ctx, progs, part, chunk=300):
    """one expansion of every program; (crashes, syntax suspects)"""
    progs = core.dedup(progs)
    deps = ctx.deps()
    crash, syn = [], {}
    n_err = [0]

    def one(batch):
        crate = core.Crate(batch, header="#![allow(warnings)]\n#![feature(__nope)]\n".replace("#![feature(__nope)]\n", "") + "macro_rules! mk { ($($t:tt)*) => { $($t)* } }\n")
        f = core._fname(".rs")
        open(f, "w").write(crate.text)
        rc, diags = core.rustc(deps, f, f + ".rmeta", edition=batch[0].edition, extern=("mcrt", "auxmac"), cpu=core.CPU_ONE if len(batch) == 1 else core.CPU_BATCH)
        for x in (f, f + ".rmeta"):
            if os.path.exists(x):
                os.unlink(x)
        dead = rc is None or rc < 0 or rc > 1
        bad = [d for d in diags if PANIC.search(d.get("message", ""))]
        if dead and not bad:
            if len(batch) == 1 and rc is None and not part.startswith("hang"):
                # alone, and the compiler itself has no such trouble with the item
                slow, _ = examine(ctx, [Prog(strip_attrs(batch[0].src), "ok", "twin")], "hang-twin", chunk=1)
                if not slow:
                    raise core.Hang(batch[0])
                return
            if len(batch) == 1:
                crash.append((batch[0], "the compiler timed out" if rc is None else f"the compiler crashed (status {rc})"))
                return
            if rc is None:
                for p in batch:
                    one([p])
                return
            m = len(batch) // 2
            one(batch[:m])
            one(batch[m:])
            return
        hit, loose = core.attribute(crate, f, bad)
        for i, ms in hit.items():
            crash.append((batch[i], "; ".join(ms)[:300]))
        if loose:
            crash.append((batch[0], "somewhere in this batch: " + "; ".join(loose)[:300]))
        n_err[0] += len(core.attribute(crate, f, diags)[0])
        sx = [d for d in diags if d.get("level") == "error" and not d.get("code") and SYNTAX.match(d.get("message", "")) and any(s.get("label") for s in d.get("spans", []))]
        if len(batch) == 1 and any(d.get("level") == "error" and not d.get("code") and not d.get("message", "").startswith("aborting") for d in diags):
            uncoded.add(batch[0])
        for i, ms in core.attribute(crate, f, sx)[0].items():
            syn[batch[i]] = ms[0][:200]
    bs = [progs[i:i + chunk] for i in range(0, len(progs), chunk)]
    groups = {}
    with ThreadPoolExecutor(core.JOBS) as ex:
        list(ex.map(one, bs))
    ctx.part(part, len(progs))
    ctx.part(part + ":with-errors", n_err[0])
    ctx.stats.states += len(progs)
    ctx.stats.transitions += len(progs)
    ctx.traces += len(progs)
    for p in (progs[0], progs[len(progs) // 2], progs[-1]):
        ctx.sample(f"// {p.tag}\n{p.src}")
    return crash, syn


def check(ctx, progs, part, **kw):
    crash, syn = examine(ctx, progs, part, **kw)
    if crash:
        # alone, and against the twin without the attributes
        def confirm(pw):
            p, w = pw
            c2, _ = examine(ctx, [p], "confirm", chunk=1)
            if not c2:
                return None
            t = Prog(strip_attrs(p.src), "ok", p.tag)
            c3, s3 = examine(ctx, [t], "twin", chunk=1)
            if c3 or ("unparsable" in c2[0][1] and (s3 or t in uncoded)):
                return None
            return c2[0][1]
        todo, found = sorted(crash, key=lambda x: "unparsable" in x[1])[:2000], 0
        with ThreadPoolExecutor(core.JOBS) as ex:
            for i in range(0, len(todo), 4 * core.JOBS):
                for (p, _), w in zip(todo[i:], ex.map(confirm, todo[i:i + 4 * core.JOBS])):
                    if w:
                        found += 1
                        ctx.bad(p.tag, "macro crash: " + w, p.src, mode="judge", edition=p.edition)
                if found >= 10:
                    break
    if syn:
        tw = {}
        for p in syn:
            tw.setdefault(strip_attrs(p.src), []).append(p)
        tps = [Prog(s, "ok", "twin") for s in tw]
        _, tsyn = examine(ctx, tps, "syntax-twins", **kw)
        bad = {q.src for q in tsyn}
        for s, ps in tw.items():
            if s in bad:
                continue
            for p in ps[:3]:
                if p.tag.endswith("impls2"):
                    continue
                _, again = examine(ctx, [p], "confirm", chunk=1)
                if again:
                    ctx.bad(p.tag, f"expands to tokens that do not parse: {syn[p]}", p.src, mode="judge", edition=p.edition)


def run(ctx):
    th = ctx.thorough
    # the detector sees crashes: programs with a panicking macro of our own
    ctl = [Prog("mk! { #[auxmac::boom] struct S; }", "ok", "control/attribute"), Prog("auxmac::boom_fn!();", "ok", "control/function"), Prog("mk! { #[auxmac::garbage] struct S; }", "ok", "control/garbage")]
    c, s = examine(ctx, ctl, "controls", chunk=1)
    if {p.tag for p, _ in c} != {"control/attribute", "control/function"} or {p.tag for p in s} != {"control/garbage"}:
        raise core.EngineError(f"controls: {[(p.tag, w) for p, w in c]} {[(p.tag, w) for p, w in s.items()]}")
    wrap = lambda s: PRE + "mk! { " + s + " }\n"

    # ---- argument token sequences
    ps = []
    A = ARGTOK
    for n in range(0, 5 if th else 4):
        for seq in itertools.product(A, repeat=n):
            a = " ".join(seq)
            if n < 4 and not th and n == 3 and seq[0] in ("Replace", "\"s\"", "(X)", "1", "::", "'a", "_", "r#fn", "Self", "crate", "{}", ",", "S", "X", "Unpin", "="):
                continue  # the parser stops at the first token; covered by the shorter sequences
            if n == 4 and seq[0] in ("Replace", "\"s\"", "(X)", "1", "::", "'a", "_", "r#fn", "Self", "crate", "{}", ",", "S", "X", "Unpin", "="):
                continue
            ps.append(Prog(wrap(f"#[pin_project({a})] " + KINDS["enum" if n % 2 else "struct"]), "ok", f"args/{a}"))
            if n <= 2:
                for k in ("struct", "tuple", "enum", "unit", "union", "fn"):
                    ps.append(Prog(wrap(f"#[pin_project({a})] " + KINDS[k]), "ok", f"args/{k}/{a}"))
    for n in range(0, 4 if th else 3):
        for seq in itertools.product(A + ["__private", "()", "!Unpin"], repeat=n):
            a = " ".join(seq)
            for form in ("#[pin({})]", "#[pin = {}]", "#[pin[{}]]") if n < 3 else ("#[pin({})]",):
                x = form.format(a)
                ps.append(Prog(wrap(f"#[pin_project] struct S<T> {{ {x} a: T, b: u8 }}"), "ok", f"pin/{a}"))
                if n < 2:
                    ps.append(Prog(wrap(f"#[pin_project(project = P)] enum S<T> {{ {x} A({x} T), B {{ {x} #[pin] c: u8 }} }}"), "ok", f"pin-enum/{a}"))
                    ps.append(Prog(wrap(f"#[pin_project] {x} struct S<T> {{ #[pin] a: T, b: u8 }}"), "ok", f"pin-item/{a}"))
                    ps.append(Prog(wrap(f"{x} #[pin_project] struct S<T> {{ #[pin] a: T, b: u8 }}"), "ok", f"pin-item/{a}"))
            ps.append(Prog(wrap(f"#[pinned_drop({a})] impl PinnedDrop for S2 {{ fn drop(self: Pin<&mut Self>) {{}} }}"), "ok", f"pd-args/{a}"))
    check(ctx, ps, "argument-sequences")

    # ---- every item kind under every attribute, in every position
    ps = []
    for k, d in KINDS.items():
        for a in ATTRS:
            ps.append(Prog(wrap(f"{a} {d}"), "ok", f"kind/{k}/{a}"))
            ps.append(Prog(PRE + f"fn h() {{ mk! {{ {a} {d} }} }}\n", "ok", f"kind-stmt/{k}/{a}"))
            ps.append(Prog(PRE + f"impl H {{ mk! {{ {a} {d} }} }}\n", "ok", f"kind-impl/{k}/{a}"))
            ps.append(Prog(PRE + f"trait H {{ mk! {{ {a} {d} }} }}\n", "ok", f"kind-trait/{k}/{a}"))
            ps.append(Prog(PRE + f"extern \"C\" {{ mk! {{ {a} {d} }} }}\n", "ok", f"kind-extern/{k}/{a}"))
    for k, d in POSITIONS.items():
        for a in ATTRS:
            for x in ("struct", "enum", "pd-impl", "fn"):
                ps.append(Prog(wrap(d.replace("$X", f"{a} {KINDS[x]}").replace("$A", a)), "ok", f"position/{k}/{a}"))
    # ---- cooperating macros
    for a in AUX:
        for b in [None] + AUX:
            for order in range(3):
                for base in ("#[pin_project]", "#[pin_project(project_replace = O)]", "#[pinned_drop]"):
                    x = [f"#[auxmac::{a}]"] + ([f"#[auxmac::{b}]"] if b else [])
                    x.insert(min(order, len(x)), base)
                    for k in ("struct", "tuple", "enum") if base != "#[pinned_drop]" else ("pd-impl",):
                        ps.append(Prog(wrap(" ".join(x) + " " + KINDS[k]), "ok", f"aux/{a}/{b}/{order}"))
    # ---- big and deep
    for n in (1, 2, 3, 4, 5, 10, 40, 100) + ((300, 900) if th else ()):
        ty = "(" * n + "u8" + ",)" * n
        bx = "Box<" * n + "Self" + ">" * n
        fn = "fn(" * n + "&Self" + ")" * n
        for t in (ty, bx, fn):
            if n > 100 and t is not ty:
                continue
            ps.append(Prog(wrap(f"#[pin_project(project = P, project_replace = O)] struct S {{ #[pin] a: {t}, b: u8 }}"), "ok", f"deep/{n}"))
        ps.append(Prog(wrap("#[pin_project(project = P, project_ref = R, project_replace = O)] enum S { " + ", ".join(f"V{i}(#[pin] u8, u16)" for i in range(n)) + " }"), "ok", f"variants/{n}"))
        ps.append(Prog(wrap("#[pin_project(project_replace)] struct S { " + ", ".join(f"{'#[pin] ' if i % 2 else ''}f{i}: u8" for i in range(n)) + " }"), "ok", f"fields/{n}"))
        ps.append(Prog(wrap("#[pin_project] struct S<" + ", ".join(f"'l{i}, T{i}: 'l{i}" for i in range(0)) + ", ".join(f"T{i}" for i in range(n)) + ">(#[pin] (" + ", ".join(f"T{i}" for i in range(n)) + ",)) where " + ", ".join(f"T{i}: Sized" for i in range(n)) + ";"), "ok", f"params/{n}"))
        ps.append(Prog(wrap(f"#[pinned_drop] impl PinnedDrop for S2 {{ fn drop(self: Pin<&mut Self>) {{ " + "{ mk! { " * n + "self" + " } }" * n + " } }"), "ok", f"body/{n}"))
        ps.append(Prog(wrap(f"#[pinned_drop] impl PinnedDrop for S2 {{ fn drop(self: Pin<&mut Self>) {{ let x = " + "(" * n + "Self::N" + ")" * n + "; } }"), "ok", f"body-paren/{n}"))
        ps.append(Prog(wrap(f"#[pinned_drop] impl PinnedDrop for S2 {{ fn drop(self: Pin<&mut Self>) {{ " + "let x = |y| " * 1 + " + ".join(["Self::N"] * n) + "; } }"), "ok", f"body-sum/{n}"))
        for form in ("'pin" + "_" * n, "'" + "p" * n + "in", "'" + "_" * n + "pin", "'pi" + "n" * n):
            for where in ("struct S<$L, T>(#[pin] &$L T, u8);", "struct S<T>(#[pin] T, for<$L> fn(&$L u8)) where for<$L> &$L T: Copy;", "enum S<$L: $L> { A(#[pin] u8, Box<dyn for<$L> Fn(&$L u8)>), B }"):
                ps.append(Prog(wrap("#[pin_project(project = P, project_replace = O)] " + where.replace("$L", form)), "ok", f"lifetime/{n}"))
        ps.append(Prog(wrap("#[pin_project] struct S<'pin, " + ", ".join("'pin" + "_" * i for i in range(1, n)) + ">(#[pin] &'pin u8);"), "ok", f"lifetimes/{n}"))
        ps.append(Prog(wrap("#[pin_project] struct S<'pin, " + ", ".join("'" + "_" * i + "pin" for i in range(1, n)) + ">(#[pin] &'pin u8);"), "ok", f"lifetimes/{n}"))
    check(ctx, ps, "kinds-positions-aux", chunk=150)

    # ---- impls and items whose components deviate
    check(ctx, list(dev_programs(2)), "components")
    # a where clause that starts with `<Ident>::`, which rustc and syn refuse (known findings)
    check(ctx, [Prog(wrap("#[pinned_drop] impl PinnedDrop for <S>::A where Self: Sized { fn drop(self: Pin<&mut Self>) {} }"), "ok", "where-first/impl"), Prog(wrap("#[pin_project] struct S where Self::A: Copy { #[pin] a: u8 }"), "ok", "where-first/item")], "where-first")

    # ---- token neighbourhood
    ins = INS if th else INS[::2]
    for grp, corpus in (("items", ITEMS), ("impls", IMPLS)):
        ps = []
        for k, s in enumerate(corpus):
            t = tree(lex(s))
            seen = set()
            for e in edits(t, ins, REP if th else REP[::2]):
                x = text(e)
                if x not in seen:
                    seen.add(x)
                    ps.append(Prog(wrap(x), "ok", f"edit/{grp}{k}"))
            if th and k < 2:
                # distance two: pairs of deletions / swaps / duplications
                for e in edits(t, [], []):
                    for e2 in edits(e, [], ["self", ("(", [])]):
                        x = text(e2)
                        if x not in seen:
                            seen.add(x)
                            ps.append(Prog(wrap(x), "ok", f"edit2/{grp}{k}"))
        check(ctx, ps, "edits-" + grp)
