"""C09: pinned_drop accepts only a proper destructor and safe code cannot call it."""
from core import Prog, Prune
import core

BOUNDS = ("every impl that deviates from `#[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) {} }` in at most 2 (quick) / 3 "
          "(thorough) of 12 components with all listed options, on 4 type forms; every listed way of calling the destructor "
          "from inside and outside its body, in safe code (rejected) and in an unsafe block (accepted control)")
ASSUMPTIONS = ["items of the doc(hidden) module `__private` may be named by user code; calling their unsafe functions needs an unsafe block"]

PRE = ("use core::pin::{self, Pin}; use core::ops::Deref; use pin_project::{pin_project, pinned_drop};\n"
       "pub trait Tr { fn drop(self: Pin<&mut Self>); } pub use core::pin::Pin as P; pub type PA<'a, T> = Pin<&'a mut T>; pub trait Idt { type X: ?Sized; } impl<T: ?Sized> Idt for T { type X = T; }\n"
       "macro_rules! item { () => {} } macro_rules! wrap { ($($t:tt)*) => { $($t)* } }\n")
FORMS = {
    "plain": ("", "S", "#[pin_project(PinnedDrop)] pub struct S { #[pin] f: u8 } pub type Al = S;"),
    "generic": ("<T>", "S<T>", "#[pin_project(PinnedDrop)] pub struct S<T> { #[pin] f: T, g: u8 } pub type Al<T> = S<T>;"),
    "enum": ("<'a, T>", "S<'a, T>", "#[pin_project(PinnedDrop, project = SP)] pub enum S<'a, T> { A(#[pin] &'a T), B } pub type Al<'a, T> = S<'a, T>;"),
    "tuple": ("<const N: usize>", "S<N>", "#[pin_project(PinnedDrop, !Unpin)] pub struct S<const N: usize>(#[pin] [u8; N]); pub type Al<const N: usize> = S<N>;"),
}
G, B = True, False
ATTR = [("#[pinned_drop]", G), ("#[pinned_drop()]", G), ("#[pin_project::pinned_drop]", G), ("#[::pin_project::pinned_drop]", G), ("#[allow(unused)] #[pinned_drop]", G),
        ("#[pinned_drop] #[allow(unused)]", G), ("/// doc\n#[pinned_drop]", G), ("#[cfg_attr(all(), pinned_drop)]", G),
        ("#[pinned_drop(foo)]", B), ("#[pinned_drop(PinnedDrop)]", B), ("#[pinned_drop(,)]", B), ("#[pinned_drop(\"x\")]", B), ("#[pinned_drop = \"x\"]", B), ("#[pinned_drop(())]", B),
        ("#[pinned_drop(drop = 1)]", B), ("#[pinned_drop(unsafe)]", B), ("#[pinned_drop[x]]", B), ("#[pinned_drop] #[pinned_drop]", B), ("#[cfg_attr(any(), pinned_drop)]", B), ("", B)]
UNS = [("", G), ("unsafe ", B)]
TRAIT = [("PinnedDrop for ", G), ("Drop for ", B), ("core::ops::Drop for ", B), ("Tr for ", B), ("self::Tr for ", B), ("PinnedDrop<u8> for ", B), ("self::PinnedDrop for ", B), ("::PinnedDrop for ", B),
         ("pin_project::PinnedDrop for ", B), ("!PinnedDrop for ", B), ("", B), ("pin_project::UnsafeUnpin for ", B), ("Unpin for ", B), ("Deref for ", B), ("Pinned for ", B), ("pin_project::__private::PinnedDrop for ", B)]
QUAL = [("", G), ("#[inline] ", G), ("#[allow(clippy::all)] ", G), ("/** doc */ ", G), ("unsafe ", B), ("async ", B), ("const ", B), ("extern \"C\" ", B), ("pub ", B), ("pub(crate) ", B), ("default ", B)]
NAME = [("drop", G), ("Drop", B), ("drop_", B), ("pinned_drop", B), ("drop_inner", B)]
FGEN = [("", G), ("<X>", B), ("<const M: usize>", B), ("<X: Copy>", B)]
RECV = [("self: Pin<&mut Self>", G), ("mut self: Pin<&mut Self>", G), ("self: core::pin::Pin<&mut Self>", G), ("self: ::core::pin::Pin<&mut Self>", G), ("mut self: ::std::pin::Pin<&mut Self>", G),
        ("self: pin::Pin<&mut Self>", G), ("self: std::pin::Pin<&mut Self>,", G),
        ("", B), ("&mut self", B), ("&self", B), ("self", B), ("mut self", B), ("self: Pin<&Self>", B), ("self: &mut Self", B), ("self: &Self", B), ("self: Self", B), ("self: Box<Self>", B), ("self: Pin<Box<Self>>", B),
        ("this: Pin<&mut Self>", B), ("_: Pin<&mut Self>", B), ("_: ()", B), ("_: &mut Self", B), ("self: &Pin<&mut Self>", B), ("self: &mut Pin<&mut Self>", B), ("self: Pin<&mut u8>", B), ("self: Pin<&mut &mut Self>", B), ("self: Pin<Self>", B),
        ("self: Pin", B), ("self: Pin<>", B), ("self: Pin<&'static mut Self>", B), ("self: std::rc::Rc<Self>", B), ("self: Pin<&mut Pin<&mut Self>>", B), ("self: Pin<std::rc::Rc<Self>>", B), ("self: Pin<*mut Self>", B),
        ("self: Box<&mut Self>", B), ("self: Option<&mut Self>", B), ("self: Pin<&mut $TY>", B), ("mut self: Pin<&mut self::$TY>", B), ("self: core::pin::Pin<&mut $AL>", B), ("self: Pin<&mut <Self as Idt>::X>", B), ("self: Pin<&mut Self::X>", B),
        ("self: P<&mut Self>", B), ("self: pin::P<&mut Self>", B), ("self: PA<Self>", B), ("self: Pin::<&mut Self, ()>", B), ("self: Pin<&mut (Self, )>", B), ("self: Pin<&mut Option<Self>>", B), ("self: Pin<&mut [Self]>", B), ("mut self: &mut Self", B), ("ref self: Pin<&mut Self>", B)]
EXTRA = [("", G), (", _x: u8", B), (", _: ()", B), (", self: Pin<&mut Self>", B), (", ...", B)]
RET = [("", G), (" -> ()", G), (" -> u8", B), (" -> !", B), (" -> ((),)", B), (" -> Self", B), (" -> Option<()>", B), (" -> impl Sized", B), (" -> &Self", B), (" -> [(); 0]", B)]
BODY = [(" {}", G), (" { panic!() }", G), (" { loop {} }", G), (" { unsafe { } }", G), (";", B)]
ITEMS = [("$M", G), ("", B), ("const X: u8 = 0; $M", B), ("$M const X: u8 = 0;", B), ("type X = u8; $M", B), ("$M type X = u8;", B), ("$M $M", B), ("$M fn other(&self) {}", B), ("fn other(self: Pin<&mut Self>) {} $M", B),
         ("$M fn drop(&mut self) {}", B), ("item!{} $M", B), ("$M item!();", B), ("const X: u8 = 0;", B), ("type Target = u8;", B), ("static X: u8 = 0; $M", B), ("use core as c; $M", B), ("$M struct Y;", B), ("const drop: u8 = 0;", B), ("$M,", B)]
PLACE = [("{}", G), ("mod inside {{ use super::*; {} }}", G), ("fn inside() {{ {} }}", G), ("const _: () = {{ {} }};", G), ("wrap! {{ {} }}", G), ("impl u8 {{ {} }}", B)]


def run(ctx):
    bound = 3 if ctx.thorough else 2

    def gen(c):
        form = c.pick("form", list(FORMS), free=True)
        ok = True
        parts = {}
        for k, opts in (("attr", ATTR), ("uns", UNS), ("trait", TRAIT), ("qual", QUAL), ("name", NAME), ("fgen", FGEN), ("recv", RECV), ("extra", EXTRA), ("ret", RET), ("body", BODY), ("items", ITEMS), ("place", PLACE)):
            if form != "plain" and k in ("attr", "place", "name", "extra") and not ctx.thorough:
                opts = opts[:1]
            t, g = c.pick(k, opts)
            parts[k] = t
            ok = ok and g
        g, ty, decl = FORMS[form]
        if parts["recv"].endswith(",") and parts["extra"]:
            raise Prune
        if not parts["recv"] and parts["extra"]:
            raise Prune
        m = f"{parts['qual']}fn {parts['name']}{parts['fgen']}({parts['recv']}{parts['extra']}){parts['ret']}{parts['body']}"
        m = m.replace("$TY", ty).replace("$AL", "Al" + ty[1:])
        imp = f"{parts['attr']} {parts['uns']}impl{g} {parts['trait']}{ty} {{ {parts['items'].replace('$M', m)} }}"
        src = PRE + decl + "\n" + parts["place"].format(imp) + "\n"
        return Prog(src, "ok" if ok else "err", "grammar/" + form)
    ctx.judge(ctx.explore(gen, bound), part="grammar", chunk=100)

    # a second impl on something that is not a nominal type, next to a correct one
    ps = []
    for form, (g, ty, decl) in FORMS.items():
        good = f"#[pinned_drop] impl{g} PinnedDrop for {ty} {{ fn drop(self: Pin<&mut Self>) {{}} }}\n"
        for t in (f"&{ty}", f"&mut {ty}", f"[{ty}; 1]", f"[{ty}]", f"({ty},)", "()", "dyn Tr2", f"dyn Fn({ty})", f"*const {ty}", f"fn({ty})", "!", "_", "impl Tr2", "u8", f"Vec<{ty}>", f"Option<{ty}>", "str", "Nope", "Tr2", "{}"):
            ps.append(Prog(PRE + "pub trait Tr2 {}\n" + decl + "\n" + good + f"#[pinned_drop] impl{g} PinnedDrop for {t} {{ fn drop(self: Pin<&mut Self>) {{}} }}\n", "err", f"target/{form}"))
        for t in (f"self::{ty}", f"{ty}", "Al" + ty[1:]):
            for pl, _ in PLACE[:4]:
                if "self::" in t and pl[0] in "mf" and pl != "fn inside() {{ {} }}":
                    continue
                ps.append(Prog(PRE + decl + "\n" + pl.format(f"#[pinned_drop] impl{g} PinnedDrop for {t} {{ fn drop(self: Pin<&mut Self>) {{}} }}") + "\n", "ok", f"target-ok/{form}"))
        # on other items
        for it in ("struct X;", "struct X { f: u8 }", "fn x() {}", "trait X {}", "mod x {}", "const X: u8 = 0;", "enum X { A }", "use core as x;", "type X = u8;", "extern crate core as x;", "macro_rules! x { () => {} }", "static X: u8 = 0;", "impl u16 {}", "union X { a: u8 }", "wrap! { struct X; }",
                   f"impl{g} {ty} {{}}", f"impl{g} {ty} {{ fn drop(self: Pin<&mut Self>) {{}} }}", "extern \"C\" {}"):
            ps.append(Prog(PRE + decl + "\n" + good + f"#[pinned_drop] {it}\n", "err", f"item/{form}/{it}"))
    ctx.judge(ps, part="targets")

    # calls
    ps = []
    Q = "pin_project::__private::PinnedDrop"
    for form, (g, ty, decl) in FORMS.items():
        gargs = {"plain": "", "generic": "::<T>", "enum": "::<T>", "tuple": "::<N>"}[form]

        def prog(body, tail="", sig="self"):
            return PRE + decl + f"\n#[pinned_drop] impl{g} PinnedDrop for {ty} {{ fn drop({sig}: Pin<&mut Self>) {{ {body} }} }}\n{tail}"
        inner = [(f"__drop_inner(self)", "self"), (f"__drop_inner{gargs}(self)", "self"), ("__drop_inner(self.as_mut())", "mut self"), (f"__drop_inner{gargs}(self.as_mut())", "mut self"), ("(|| __drop_inner(self))()", "self"), ("vec![__drop_inner(self)]", "self"),
                 ("{ let f = __drop_inner; f(self) }", "self"), ("{ let f: fn(Pin<&mut Self>) = __drop_inner; f(self) }", "self"), ("self::__drop_inner(self)", "self"), ("super::__drop_inner(self)", "self"), ("Self::__drop_inner(self)", "self"), ("self.__drop_inner()", "self"),
                 ("if true { __drop_inner(self) }", "self"), ("{ { __drop_inner(self) } }", "self"), ("{ fn k" + g.replace("<T>", "<T>") + f"(s: Pin<&mut {ty}>) {{ __drop_inner(s) }} k(self) }}", "self"), ("self.map(__drop_inner)", "self"),
                 ("<Self as Drop>::drop(&mut *self)", "mut self"), ("Drop::drop(&mut *self)", "mut self"), ("Drop::drop(&mut self)", "mut self")]
        for b, sig in inner:
            for w in ("{};", "let _ = {};", "unsafe {{ {}; }}"):
                ps.append(Prog(prog(w.format(b), sig=sig), "err", f"inner-call/{form}"))
        calls = [("{r}.drop()", f"use {Q};"), (f"{Q}::drop({{r}})", ""), (f"<Self_ as {Q}>::drop({{r}})", ""), (f"::pin_project::__private::PinnedDrop::drop({{r}})", "")]
        for cl, use in calls:
            for r, sig in (("self", "self"), ("self.as_mut()", "mut self")):
                b = cl.replace("Self_", "Self").format(r=r)
                ps.append(Prog(prog(f"{use} {b};", sig=sig), "err", f"trait-call/{form}"))
                ps.append(Prog(prog(f"{use} unsafe {{ {b}; }}", sig=sig), "ok", f"trait-call-unsafe/{form}"))
                ps.append(Prog(prog(f"{use} (|| {b})();", sig=sig), "err", f"trait-call/{form}"))
            b = cl.replace("Self_", f"<{ty}>").replace("<<", "<").replace(f"{ty}> as", f"{ty} as").format(r="x")
            for w, e in (("fn call{g}(x: Pin<&mut {ty}>) {{ {use} {b}; }}", "err"), ("fn call{g}(x: Pin<&mut {ty}>) {{ {use} unsafe {{ {b}; }} }}", "ok"), ("unsafe fn call{g}(x: Pin<&mut {ty}>) {{ {use} unsafe {{ {b}; }} }}", "ok"),
                         ("impl{g} {ty} {{ fn call(x: Pin<&mut Self>) {{ {use} {b}; }} }}", "err"), ("fn call{g}(x: Pin<&mut {ty}>) {{ {use} let f = || {b}; f(); }}", "err")):
                ps.append(Prog(prog("", w.format(g=g, ty=ty, b=b, use=use)), e, f"outside/{form}"))
        for b in ("PinnedDrop::drop(x)", "x.drop()", "__drop_inner(x)", "S::drop(x)", "S::__drop_inner(x)", "Drop::drop(&mut *x)", f"<{ty} as PinnedDrop>::drop(x)", "pin_project::PinnedDrop::drop(x)", f"let f: fn(Pin<&mut {ty}>) = {Q}::drop; f(x)", f"let f: fn(Pin<&mut {ty}>) = <{ty} as {Q}>::drop; f(x)",
                  f"fn ap<F: FnOnce(A), A>(f: F, a: A) {{ f(a) }} ap({Q}::drop, x)"):
            ps.append(Prog(prog("", f"fn call{g}(x: Pin<&mut {ty}>) {{ {b}; }}"), "err", f"outside-other/{form}"))
        for b in ("drop(self)", "core::mem::drop(self)", "{ fn drop<X>(_: X) {} drop(self) }", "let _ = self"):
            ps.append(Prog(prog(b + ";"), "ok", f"control/{form}"))
    ctx.judge(ps, part="calls")
