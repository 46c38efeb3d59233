"""C10: project_replace drops pinned fields in place, moves out the rest, installs the new value."""
from core import Prog, Prune
from shapes import *
from props.c01 import mk, masks, styles, deep_enums, TYS
import itertools
import kinds

BOUNDS = ("all structs with <=4 (quick) / <=6 (thorough) fields and all pin masks, all enums with <=2 (quick) / <=3 variants of <=2 fields and all "
          "masks, enums with a variant of 3-4 (5) fields, named and unnamed projections, all field types; every history of project / project_ref / write / set / "
          "project_replace of depth 3 (small types) or 2 with every choice of panicking destructor; nested replaced types; "
          "every unsized tail and every argument list that must make it unavailable")


def run(ctx):
    th = ctx.thorough
    its = []
    SA = [dict(replace=""), dict(replace="SOwn"), dict(project="SProj", project_ref="SRef", replace="SOwn"), dict(replace="", unpin="!Unpin"), dict(project="SProj", replace="", unpin="UnsafeUnpin")]

    def structs(c):
        n = c.pick("fields", range(1, 7 if th else 5), free=True)
        st = c.pick("style", ["named", "tuple"], free=True)
        m = c.pick("mask", masks(n), free=True)
        a = c.pick("args", SA if n <= 3 or th else SA[:2], free=True)
        return ("struct", Item("struct", [mk(st, m)], **a))

    def enums(c):
        nv = c.pick("variants", range(1, 4 if th else 3), free=True)
        vs = []
        for k in range(nv):
            n = c.pick(f"fields{k}", range(0, 3 if nv < 3 else 2), free=True)
            st = c.pick(f"style{k}", styles(n), free=True)
            vs.append(mk(st, c.pick(f"mask{k}", masks(n), free=True), f"V{k}"))
        if not any(v.fields for v in vs):
            raise Prune
        a = c.pick("args", [dict(replace="SOwn"), dict(project="SProj", project_ref="SRef", replace="SOwn"), dict(replace="SOwn", unpin="!Unpin")] if nv == 1 or th else [dict(replace="SOwn")], free=True)
        return ("enum", Item("enum", vs, **a))
    its += ctx.explore(structs) + ctx.explore(enums)
    # larger variants next to others (drop order among several pinned fields of an enum)
    its += [("enum-deep", i) for i in deep_enums(ctx, replace="SOwn")]
    for i, t in enumerate(TYS):
        for t2 in TYS:
            for p, q in masks(2):
                its.append(("types", Item("struct", [mk("named" if p else "tuple", [p, q], tys=[t, t2])], replace="")))
        for p, q in masks(2):
            its.append(("types", Item("enum", [mk("named" if p else "tuple", [p, q], "A", tys=[t, TYS[(i + 2) % len(TYS)]]), mk("tuple", [q], "B", tys=[t])], replace="SOwn", project="SProj")))
    for st in ("named", "tuple"):
        for m in masks(3):
            v = mk(st, m, tys=["T", "W", "T"])
            for f, ct in zip(v.fields, ("D", "Box<D>", "D")):
                f.cty = ct
            its.append(("generic", Item("struct", [v], gdecl="<T, W>", guse="<D, Box<D>>", replace="SOwn")))
            its.append(("generic-where", Item("struct", [v], gdecl="<T: mcrt::Fld, W>", where="where W: mcrt::Fld", guse="<D, Box<D>>", replace="")))
    for n in ((9, 14) if not th else (9, 14, 21, 40)):
        for hot in range(n):
            for inv in (0, 1):
                its.append(("wide", Item("struct", [mk("named" if hot % 2 else "tuple", [(i == hot) ^ inv for i in range(n)])], replace="")))
    ps = []
    for tag, it in its:
        p = Prog(it.module(), tag=tag)
        n = max(len(v.fields) for v in it.variants)
        nv = len(it.variants)
        p.meta["depth"] = 1 if n > 6 else (3 if n + nv <= (4 if not th else 5) else 2)
        ps.append(p)
    ctx.run(ps, lambda p: f'{p.name}::go("{p.name}", {p.meta["depth"]});', part="histories")

    # ---- nested annotated types, loops of replacements, values in containers; every panic point
    pre = "use core::pin::Pin; use core::marker::PhantomData; use pin_project::{pin_project, pinned_drop}; use mcrt::{D, Ev};\nfn hit(s: &str) { mcrt::note(s); mcrt::log_fire(); }\n"
    out = []

    def add(tag, items, exp, code):
        e = "[" + ", ".join(f'"{x}"' for x in exp) + "]"
        out.append(Prog(pre + items + f"pub fn go(n: &str, _d: usize) {{ mcrt::single(n, || mcrt::all_panics_min(&{e}, || {{ {code} }})); }}\n", tag="special/" + tag))
    inn = "#[pin_project(PinnedDrop)] struct In { #[pin] a: D, b: D } #[pinned_drop] impl PinnedDrop for In { fn drop(self: Pin<&mut Self>) { hit(\"I\"); } }\n"
    mki = lambda b: f"In {{ a: D::new({b}), b: D::new({b + 1}) }}"
    add("nested-pinned", inn + "#[pin_project(project_replace)] struct S { #[pin] i: In, d: D }", ["I", "D1", "D2", "D3", "I", "D4", "D5", "D6"],
        f"let mut x = Box::pin(S {{ i: {mki(1)}, d: D::new(3) }}); let o = x.as_mut().project_replace(S {{ i: {mki(4)}, d: D::new(6) }}); let _: PhantomData<In> = o.i; drop(o.d); drop(x);")
    add("order", "#[pin_project(project_replace)] struct S { a: D, #[pin] b: D, c: D, #[pin] d: D }", ["D2", "D4", "D1", "D3", "D5", "D6", "D7", "D8"],
        "let mut x = Box::pin(S { a: D::new(1), b: D::new(2), c: D::new(3), d: D::new(4) }); drop(x.as_mut().project_replace(S { a: D::new(5), b: D::new(6), c: D::new(7), d: D::new(8) })); drop(x);")
    add("own-keeps", "#[pin_project(project_replace = Own)] enum S { A(D, #[pin] D), B { x: D } }", ["D2", "D3", "D1", "D4"],
        "let mut x = Box::pin(S::A(D::new(1), D::new(2))); let o = x.as_mut().project_replace(S::B { x: D::new(3) }); let o2 = x.as_mut().project_replace(S::B { x: D::new(4) }); drop(o2); match o { Own::A(d, PhantomData) => drop(d), Own::B { .. } => panic!() } drop(x);")
    add("stack-pin", "#[pin_project(project_replace)] struct S(D, #[pin] D);", ["D2", "D1", "D4", "D3", "D5", "D6"],
        "let mut x = core::pin::pin!(S(D::new(1), D::new(2))); let o = x.as_mut().project_replace(S(D::new(3), D::new(4))); drop(o.0); let o = x.as_mut().project_replace(S(D::new(5), D::new(6))); drop(o.0);")
    add("option-state", "#[pin_project(project = SP, project_replace = SO)] enum St { Run { #[pin] f: D, then: D }, Done(D), Gone }", ["D1", "D2", "D3"],
        "let mut x = Box::pin(St::Run { f: D::new(1), then: D::new(2) }); match x.as_mut().project_replace(St::Gone) { SO::Run { then, .. } => drop(then), _ => panic!() } assert!(matches!(x.as_mut().project(), SP::Gone)); x.as_mut().project_replace(St::Done(D::new(3))); match x.as_mut().project_replace(St::Gone) { SO::Done(d) => drop(d), _ => panic!() } drop(x);")
    add("zst-and-align", "#[pin_project(project_replace)] struct S { #[pin] z: (), #[pin] d: D, y: [u64; 0], #[pin] a: mcrt::A32, u: u8 }", ["D1", "D2", "D3", "D4"],
        "let mut x = Box::pin(S { z: (), d: D::new(1), y: [], a: mcrt::A32(D::new(2)), u: 7 }); let o = x.as_mut().project_replace(S { z: (), d: D::new(3), y: [], a: mcrt::A32(D::new(4)), u: 8 }); assert_eq!(o.u, 7); assert_eq!(x.as_ref().project_ref().u, &8); drop(x);")
    add("copy-fields", "#[pin_project(project_replace)] struct S<T> { #[pin] p: T, n: u32, s: String }", ["D1", "D2"],
        "let mut x = Box::pin(S { p: D::new(1), n: 1, s: \"a\".to_string() }); let o = x.as_mut().project_replace(S { p: D::new(2), n: 2, s: \"b\".to_string() }); assert_eq!((o.n, &*o.s), (1, \"a\")); assert_eq!((x.n, &*x.s), (2, \"b\")); drop(x);")
    ctx.run(out, lambda p: f'{p.name}::go("{p.name}", 0);', part="special")

    ctx.run([Prog(it.module(), tag="spelling") for it in spelled_items(ctx, replace="")], lambda p: f'{p.name}::go("{p.name}", 1);', part="spellings")
    ctx.run(kinds.replaces(ctx), lambda p: f'{p.name}::go("{p.name}");', part="kinds")

    # ---- availability
    ps = []
    P = "use core::pin::Pin; use core::marker::PhantomData; use pin_project::{pin_project, pinned_drop}; pub trait Tr { fn t(&self) {} }\n"
    for rep in ("project_replace", "project_replace = Own"):
        for tail, ok in (("T", True), ("Box<T>", True), ("[T; 3]", True), ("&'static T", True), ("[T]", False), ("str", False), ("dyn Tr", False), ("[u8]", False), ("Box<[T]>", True), ("Box<dyn Tr>", True), ("(u8, str)", False), ("core::cell::RefCell<str>", False),
                         ("core::cell::Cell<[T]>", False), ("dyn Tr + Send", False), ("core::mem::ManuallyDrop<str>", False), ("PhantomData<str>", True)):
            for pin in ("#[pin] ", ""):
                for d in (f"struct S<T: 'static> {{ a: T, {pin}t: {tail} }}", f"struct S<T: 'static>(#[pin] T, {pin}{tail});", f"struct S<T: 'static> {{ z: PhantomData<T>, {pin}t: {tail} }}"):
                    ps.append(Prog(P + f"#[pin_project({rep})] {d}\n", "ok" if ok else "err", "tail/" + tail))
                    ps.append(Prog(P + f"#[pin_project] {d}\n", "ok", "tail-control/" + tail))
        for d in ("struct S<T: ?Sized> { a: u8, #[pin] t: T }", "struct S<T: ?Sized> { a: u8, t: T }", "struct S<T> where T: ?Sized { #[pin] t: T }", "struct S<T: Tr + ?Sized>(T);", "struct S<T: ?Sized>(#[pin] T);", "struct S<T: ?Sized> { #[pin] t: core::cell::UnsafeCell<T> }"):
            ps.append(Prog(P + f"#[pin_project({rep})] {d}\n", "err", "?Sized"))
            ps.append(Prog(P + f"#[pin_project] {d}\n", "ok", "?Sized-control"))
        for d in ("struct S<T: ?Sized> { a: u8, #[pin] t: Box<T> }", "struct S<T: ?Sized> { a: PhantomData<T>, #[pin] t: u8 }", "struct S<T: ?Sized>(&'static T) where T: 'static;"):
            ps.append(Prog(P + f"#[pin_project({rep})] {d}\n", "ok", "?Sized-sized"))
        for d, nm in (("struct S<T> { #[pin] f: T, g: u8 }", rep), ("struct S<T>(#[pin] T, u8);", rep), ("enum S<T> { A(#[pin] T), B }", "project_replace = Own")):
            pd = "#[pinned_drop] impl<T> PinnedDrop for S<T> { fn drop(self: Pin<&mut Self>) {} }\n"
            for a in (f"PinnedDrop, {nm}", f"{nm}, PinnedDrop", f"project = SP, {nm}, PinnedDrop", f"PinnedDrop, project_ref = SR, {nm}", f"PinnedDrop, !Unpin, {nm},"):
                ps.append(Prog(P + f"#[pin_project({a})] {d}\n{pd}", "err", "PinnedDrop"))
                ps.append(Prog(P + f"#[pin_project({a})] {d}\n", "err", "PinnedDrop"))
                b = ", ".join(x for x in a.rstrip(",").split(", ") if not x.startswith("project_replace"))
                ps.append(Prog(P + f"#[pin_project({b})] {d}\n{pd}", "ok", "PinnedDrop-control"))
                b = ", ".join(x for x in a.rstrip(",").split(", ") if x != "PinnedDrop")
                ps.append(Prog(P + f"#[pin_project({b})] {d}\n", "ok", "PinnedDrop-control"))
                ps.append(Prog(P + f"#[pin_project({b})] {d}\n{pd}", "err", "PinnedDrop-impl-without-argument"))
    for a in ("", "(project = SP)", "(project = SP, project_ref = SR)", "(!Unpin)", "(UnsafeUnpin)", "(project_replace)", "(project_replace = Own)", "(project = SP, project_replace = Own)"):
        for d, mkv in (("struct S<T> { #[pin] f: T, g: u8 }", "S { f: 1u8, g: 1 }"), ("struct S<T>(#[pin] T, u8);", "S(1u8, 2)"), ("enum S<T> { A(#[pin] T), B }", "S::A(1u8)")):
            if d.startswith("enum") and a == "(project_replace)":
                continue
            ps.append(Prog(P + f"#[pin_project{a}] {d}\nfn f(x: Pin<&mut S<u8>>) {{ let _ = x.project_replace({mkv}); }}\n", "ok" if "project_replace" in a else "err", "requested"))
            ps.append(Prog(P + f"#[pin_project{a}] {d}\nfn f(x: Pin<&S<u8>>) {{ let _ = x.project_replace({mkv}); }}\n", "err", "shared"))
            ps.append(Prog(P + f"#[pin_project{a}] {d}\nfn f(x: &mut S<u8>) {{ let _ = x.project_replace({mkv}); }}\n", "err", "not pinned"))
    ctx.judge(ps, part="availability")
