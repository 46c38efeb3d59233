"""C06: a destructor that bypasses pinning is always rejected."""
from core import Prog
from props.c05 import FORMS, PLACES

BOUNDS = ("13 item forms x argument lists x every Drop / PinnedDrop impl header of the grammar (all parameters, subset, concrete, "
          "extra bounds) x 5 placements; every multiset of <=2 pinned_drop impls with/without the argument")
PRE = "use core::marker::{PhantomData, PhantomPinned}; use core::pin::Pin; use pin_project::{pin_project, pinned_drop, UnsafeUnpin};\n"
BODY = "{ fn drop(&mut self) {} }"
PBODY = "{ fn drop(self: Pin<&mut Self>) {} }"
ARGS = ["", "(!Unpin)", "(UnsafeUnpin)", "(project = SP)", "(project_ref = SR)", "(project = SP, project_ref = SR)", "(project_replace = SO)", "(project = SP, !Unpin)"]


def addpd(a):
    return "(PinnedDrop)" if not a else "(PinnedDrop, " + a[1:]


def run(ctx):
    th = ctx.thorough
    ps, cal = [], []
    for name, d, g, ty, conc in FORMS:
        enum = " enum " in d
        for a in ARGS:
            if "replace" in a and "?Sized" in d:
                continue
            base = PRE + d.replace("$A", a) + "\n"
            pbase = PRE + d.replace("$A", addpd(a)) + "\n"
            good = f"#[pinned_drop] impl<{g}> PinnedDrop for {ty} {PBODY}\n"
            ps.append(Prog(base, "ok", f"control/{name}{a}"))
            drops = [f"impl<{g}> Drop for {ty} {BODY}", f"impl<{g}> core::ops::Drop for {ty} {BODY}", f"impl<{g}> ::std::ops::Drop for self::{ty} {BODY}"]
            for dr in drops:
                for pl in (PLACES if dr == drops[0] or th else PLACES[:1]):
                    t = pl.format(i=dr) + "\n"
                    ps.append(Prog(base + t, "err", f"drop/{name}{a}"))
                    if "replace" not in a:
                        ps.append(Prog(pbase + good + t, "err", f"drop+pinned/{name}{a}"))
                        ps.append(Prog(pbase + t, "err", f"drop-instead/{name}{a}"))
                    ps.append(Prog(base + good + t, "err", f"both-noarg/{name}{a}"))
            # pinned_drop impl without the argument
            for pl in PLACES:
                ps.append(Prog(base + pl.format(i=good) + "\n", "err", f"noarg/{name}{a}"))
            if "replace" in a:
                ps.append(Prog(pbase + good, "err", f"excl/{name}{a}"))
                continue
            for pl in PLACES:
                ps.append(Prog(pbase + pl.format(i=good) + "\n", "ok", f"good/{name}{a}"))
                ps.append(Prog(pl.format(i=good).join(["", "\n"]).join([PRE, pbase[len(PRE):]]) if pl == "{i}" else pbase + pl.format(i=good), "ok", f"good-first/{name}{a}"))
            ps.append(Prog(pbase, "err", f"noimpl/{name}{a}"))
            ps.append(Prog(pbase + good + good, "err", f"twice/{name}{a}"))
            ps.append(Prog(pbase + good + "mod again { use super::*; " + good + " }\n", "err", f"twice-mod/{name}{a}"))
            # impls that cover only part of the instantiations
            for c in conc:
                if c != ty:
                    ps.append(Prog(pbase + f"#[pinned_drop] impl PinnedDrop for {c} {PBODY}\n", "err", f"partial/{name}{a}"))
                    ps.append(Prog(base + f"#[pinned_drop] impl PinnedDrop for {c} {PBODY}\n", "err", f"partial-noarg/{name}{a}"))
                    ps.append(Prog(pbase + good + f"#[pinned_drop] impl PinnedDrop for {c} {PBODY}\n", "err", f"extra/{name}{a}"))
            if "T" in g.replace("const", ""):
                for b in ("T: Ord", "T: Unpin", "T: 'static", "T: Send", "PhantomData<T>: Send", "T: Copy" if "Copy" not in g else "T: Eq"):
                    ps.append(Prog(pbase + f"#[pinned_drop] impl<{g}> PinnedDrop for {ty} where {b} {PBODY}\n", "err", f"bounded/{name}{a}"))
            # the private trait and the Drop impl spelled by hand do not help
            ps.append(Prog(base + f"impl<{g}> pin_project::__private::PinnedDrop for {ty} {{ unsafe fn drop(self: Pin<&mut Self>) {{}} }}\n", "err", f"private/{name}{a}"))
        # the impls really are well formed: same headers on an unannotated twin
        twin = PRE + d.replace("#[pin_project$A] ", "").replace("#[pin] ", "") + "\n"
        for dr in (f"impl<{g}> Drop for {ty} {BODY}", f"impl<{g}> core::ops::Drop for {ty} {BODY}", f"impl<{g}> ::std::ops::Drop for self::{ty} {BODY}"):
            for pl in PLACES:
                cal.append(Prog(twin + pl.format(i=dr) + "\n", "ok", "twin/" + name))
    # where-clauses and bounds of the type repeated in any equivalent form are fine
    for decl, impl, ok in (
            ("#[pin_project(PinnedDrop)] struct S<T: Clone> { #[pin] f: T }", "impl<T: Clone> PinnedDrop for S<T>", True),
            ("#[pin_project(PinnedDrop)] struct S<T: Clone> { #[pin] f: T }", "impl<T> PinnedDrop for S<T> where T: Clone", True),
            ("#[pin_project(PinnedDrop)] struct S<T> where T: Clone { #[pin] f: T }", "impl<T: Clone> PinnedDrop for S<T>", True),
            ("#[pin_project(PinnedDrop)] struct S<T: Clone> { #[pin] f: T }", "impl<T> PinnedDrop for S<T>", False),
            ("#[pin_project(PinnedDrop)] struct S<T: Clone> { #[pin] f: T }", "impl<T: Copy> PinnedDrop for S<T>", False),
            ("#[pin_project(PinnedDrop)] struct S<'a, T> { #[pin] f: &'a T }", "impl<T> PinnedDrop for S<'_, T>", True),
            ("#[pin_project(PinnedDrop)] struct S<'a, T> { #[pin] f: &'a T }", "impl<T> PinnedDrop for S<'static, T>", False),
            ("#[pin_project(PinnedDrop)] struct S<'a, 'b> { #[pin] f: &'a u8, g: &'b u8 }", "impl<'x> PinnedDrop for S<'x, 'x>", False),
            ("#[pin_project(PinnedDrop)] struct S<'a, 'b> { #[pin] f: &'a u8, g: &'b u8 }", "impl<'x, 'y> PinnedDrop for S<'y, 'x>", True),
            ("#[pin_project(PinnedDrop)] struct S<T, U> { #[pin] f: T, g: U }", "impl<X> PinnedDrop for S<X, X>", False),
            ("#[pin_project(PinnedDrop)] struct S<T, U> { #[pin] f: T, g: U }", "impl<U, T> PinnedDrop for S<U, T>", True),
            ("#[pin_project(PinnedDrop)] struct S<const N: usize> { #[pin] f: [u8; N] }", "impl<const M: usize> PinnedDrop for S<M>", True),
            ("#[pin_project(PinnedDrop)] struct S<const N: usize> { #[pin] f: [u8; N] }", "impl PinnedDrop for S<3>", False),
            ("#[pin_project(PinnedDrop)] enum S<T: ?Sized> { A(#[pin] Box<T>), B }", "impl<T: ?Sized> PinnedDrop for S<T>", True),
            ("#[pin_project(PinnedDrop)] enum S<T: ?Sized> { A(#[pin] Box<T>), B }", "impl<T> PinnedDrop for S<T>", False)):
        ps.append(Prog(PRE + decl + "\n#[pinned_drop] " + impl + " " + PBODY + "\n", "ok" if ok else "err", "cover"))
    # types whose Drop-ness is only a matter of their fields stay fine
    for f in ("String", "Box<u8>", "Vec<S2>", "Option<Box<dyn Fn()>>"):
        ps.append(Prog(PRE + f"pub struct S2; impl Drop for S2 {{ fn drop(&mut self) {{}} }}\n#[pin_project] pub struct S {{ #[pin] f: {f}, g: {f} }}\n", "ok", "droppy-fields"))
    # one annotated type's destructor does not excuse another's
    ps.append(Prog(PRE + f"#[pin_project(PinnedDrop)] struct A {{ #[pin] f: u8 }} #[pin_project] struct B {{ #[pin] f: u8 }} #[pinned_drop] impl PinnedDrop for A {PBODY} impl Drop for B {BODY}\n", "err", "pair"))
    ps.append(Prog(PRE + f"#[pin_project(PinnedDrop)] struct A {{ #[pin] f: u8 }} #[pin_project(PinnedDrop)] struct B {{ #[pin] f: u8 }} #[pinned_drop] impl PinnedDrop for A {PBODY} #[pinned_drop] impl PinnedDrop for B {PBODY}\n", "ok", "pair"))
    ctx.calibrate(cal)
    ctx.judge(ps, part="programs", chunk=80)
