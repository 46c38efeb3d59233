"""C19: no safe use of the crate causes undefined behaviour (histories interpreted by Miri)."""
from core import Prog, Prune
from shapes import *
from props.c01 import mk, masks, styles
import itertools

BOUNDS = ("interpreted by Miri (Stacked Borrows, symbolic alignment, leak check; thorough also Tree Borrows): every history of "
          "project / project_ref / write / set / project_replace of depth 2 (structs <=2 fields), 1-2 (enums, 3 fields), thorough one deeper, with every panicking "
          "destructor; every interleaving of reads and writes through the simultaneously live entries of one projection up to length 3 (thorough 4); "
          "address-sensitive pinned values; unsized, nested, shared, threaded and niche-typed special histories with a panic at every event")

PRE = "use core::pin::Pin; use core::marker::{PhantomData, PhantomPinned}; use pin_project::{pin_project, pinned_drop}; use mcrt::{D, Ev, Fld};\n"


def interleave(item, L):
    """all sequences of reads and writes through the entries of one live projection"""
    v = item.variants[0]
    n = len(v.fields)
    p = item.pat("SProj", v).replace(" b", " mut b").replace("(b", "(mut b")
    r1 = item.pat("SRef", v)
    r2 = r1
    for i in range(n):
        r2 = r2.replace(f"b{i}", f"c{i}")
    path = item.name if item.kind == "struct" else f"{item.name}::{v.name}"
    mkv = ", ".join((f"{f.name}: " if f.name else "") + f"<{f.ct} as Fld>::mk({i + 1})" for i, f in enumerate(v.fields))
    mkv = path + (" { " + mkv + " }" if v.style == "named" else f"({mkv})")
    rd = " ".join(f"{i} => b{i}.id()," for i in range(n))
    wr = " ".join((f"{i} => b{i}.set(<{f.ct} as Fld>::mk(*id))," if f.pin else f"{i} => {{ let old = core::mem::replace(b{i}, <{f.ct} as Fld>::mk(*id)); if old.id() != exp[i] {{ return Err(\"old\".into()) }} }}") for i, f in enumerate(v.fields))
    rr = " ".join(f"if b{i}.id() != exp[{i}] || c{i}.id() != exp[{i}] {{ return Err(\"project_ref\".into()) }}" for i in range(n))
    el = "" if item.kind == "struct" else " else { unreachable!() }"
    go = f"""pub fn go(n: &str, len: usize) {{ mcrt::lean_single(n, || {{
    let k = 2 * {n}usize; let mut done = 0;
    for code in 0..k.pow(len as u32) {{
        let mut x = Box::pin({mkv});
        let mut exp = [{', '.join(str(i + 1) for i in range(n))}];
        let id = &mut 10u32;
        {{
            let {p} = x.as_mut().project(){el};
            let mut c = code;
            for _ in 0..len {{
                let op = c % k; c /= k; let i = op / 2;
                if op % 2 == 0 {{ let got = match i {{ {rd} _ => unreachable!() }}; if got != exp[i] {{ return Err(format!("sequence {{code}}: entry {{i}} is {{got}}, expected {{}}", exp[i])) }} }}
                else {{ *id += 1; match i {{ {wr} _ => unreachable!() }} exp[i] = *id; }}
            }}
        }}
        {{ let {r1} = x.as_ref().project_ref(){el}; let {r2} = x.as_ref().project_ref(){el}; {rr} }}
        done += 1;
    }}
    Ok(done)
}}) }}
"""
    return Prog(PRE + "use mcrt::{A32, Odd, U, Wr, Reg};\n" + item.decl() + go, tag="interleave")


def specials():
    out = []

    def add(tag, items, code, points=8):
        out.append(Prog(PRE + items + f"\npub fn go(n: &str, _d: usize) {{ mcrt::every_panic(n, {points}, || {{ {code} }}); }}\n", tag="special/" + tag))
    add("unsized", "#[pin_project] pub struct S<T: ?Sized> { a: D, #[pin] t: T }",
        "let mut b: Pin<Box<S<[D]>>> = Box::pin(S { a: D::new(1), t: [D::new(2), D::new(3)] }); let p = b.as_mut().project(); *p.a = D::new(4); assert_eq!(p.t.len(), 2); assert_eq!(p.t[1].id(), 3); let r = b.as_ref().project_ref(); assert_eq!(r.a.id(), 4); assert_eq!(r.t[0].id(), 2);"
        "let mut d: Pin<Box<S<dyn Fld>>> = Box::pin(S { a: D::new(5), t: D::new(6) }); let p = d.as_mut().project(); *p.a = D::new(7); assert_eq!(p.t.d().id(), 6); assert_eq!(d.as_ref().project_ref().t.d().id(), 6);")
    add("unsized-lifetime", "#[pin_project] pub struct S<'a, T: ?Sized> { a: &'a mut D, #[pin] t: T }",
        "let mut h = D::new(1); { let mut b: Pin<Box<S<'_, [D]>>> = Box::pin(S { a: &mut h, t: [D::new(2), D::new(3)] }); let p = b.as_mut().project(); **p.a = D::new(4); assert_eq!(p.t[1].id(), 3); } assert_eq!(h.id(), 4);")
    add("unsized-drop", "#[pin_project(PinnedDrop)] pub struct S<T: ?Sized> { a: D, #[pin] t: T } #[pinned_drop] impl<T: ?Sized> PinnedDrop for S<T> { fn drop(self: Pin<&mut Self>) { mcrt::point(); let p = self.project(); *p.a = D::new(9); let _ = &*p.t; } }",
        "let b: Pin<Box<S<[D]>>> = Box::pin(S { a: D::new(1), t: [D::new(2), D::new(3)] }); drop(b);")
    add("drop-projects", "#[pin_project(PinnedDrop, project = SP)] pub enum S { A { #[pin] x: D, y: Box<D> }, B(D), C } #[pinned_drop] impl PinnedDrop for S { fn drop(mut self: Pin<&mut Self>) { mcrt::point(); match self.as_mut().project() { SP::A { mut x, y } => { x.set(D::new(20)); *y = Box::new(D::new(21)); assert_eq!(x.id() + y.id(), 41); } SP::B(d) => { drop(core::mem::replace(d, D::new(22))); } SP::C => {} } self.as_mut().set(S2()); } } fn S2() -> S { unreachable!() }".replace("self.as_mut().set(S2());", "let _ = self.as_ref();").replace(" fn S2() -> S { unreachable!() }", ""),
        "let a = Box::pin(S::A { x: D::new(1), y: Box::new(D::new(2)) }); let mut b = Box::pin(S::B(D::new(3))); b.as_mut().set(S::C); b.as_mut().set(S::A { x: D::new(4), y: Box::new(D::new(5)) }); drop(a); drop(b);", 16)
    add("nested", "#[pin_project(project_replace)] pub struct In { #[pin] a: D, b: D } #[pin_project(project = OP, project_replace = OO)] pub struct Out { #[pin] i: In, #[pin] j: In, k: D }",
        "let mk = |n: u32| In { a: D::new(n), b: D::new(n + 1) }; let mut x = Box::pin(Out { i: mk(1), j: mk(3), k: D::new(5) }); let OP { mut i, mut j, k } = x.as_mut().project(); let oi = i.as_mut().project_replace(mk(6)); let pj = j.as_mut().project(); core::mem::swap(pj.b, k); let pi = i.as_mut().project(); core::mem::swap(pi.b, pj.b); assert_eq!(pi.b.id(), 5); assert_eq!(pj.b.id(), 7); assert_eq!(k.id(), 4); let o = x.as_mut().project_replace(Out { i: mk(8), j: mk(10), k: D::new(12) }); assert_eq!(o.k.id(), 4); assert_eq!(oi.b.id(), 2); drop(x);", 24)
    add("rc", "#[pin_project] pub struct S { #[pin] a: core::cell::RefCell<D>, b: core::cell::Cell<u32>, c: D }",
        "use std::rc::Rc; let x = Rc::pin(S { a: core::cell::RefCell::new(D::new(1)), b: core::cell::Cell::new(1), c: D::new(2) }); let y = x.clone(); let p = x.as_ref().project_ref(); let q = y.as_ref().project_ref(); p.b.set(2); assert_eq!(q.b.get(), 2); *p.a.borrow_mut() = D::new(3); assert_eq!(q.a.borrow().id(), 3); drop(y);")
    add("stack", "#[pin_project(project_replace)] pub struct S { #[pin] a: D, b: D }",
        "let mut x = core::pin::pin!(S { a: D::new(1), b: D::new(2) }); let mut keep = vec![]; for i in 0..3 { let o = x.as_mut().project_replace(S { a: D::new(10 + i), b: D::new(20 + i) }); keep.push(o.b); *x.as_mut().project().b = D::new(30 + i); } assert_eq!(x.as_ref().project_ref().b.id(), 32);", 16)
    add("niches", "#[pin_project(project = SP, project_replace = SO)] pub enum S<'a> { A(#[pin] bool, &'a mut u8, char), B { #[pin] n: core::num::NonZeroU8, o: Option<Box<D>> }, C(#[pin] (), core::marker::PhantomPinned), E(!Nv) }".replace("!Nv", "core::convert::Infallible"),
        "let mut v = 3; let mut w = 4; let mut x = Box::pin(S::A(true, &mut v, 'x')); if let SP::A(mut p, q, r) = x.as_mut().project() { p.set(false); **q = 9; *r = 'y'; } match x.as_mut().project_replace(S::B { n: 5.try_into().unwrap(), o: Some(Box::new(D::new(1))) }) { SO::A(_, q, r) => { *q += 1; assert_eq!(r, 'y'); } _ => panic!() } match x.as_mut().project_replace(S::C((), core::marker::PhantomPinned)) { SO::B { o, .. } => assert_eq!(o.unwrap().id(), 1), _ => panic!() } x.as_mut().project_replace(S::A(true, &mut w, 'z')); drop(x); assert_eq!(v, 10);", 4)
    add("align-pad", "#[repr(align(64))] pub struct Big(D, u8); #[pin_project(project_replace)] #[repr(C)] pub struct S { z: u8, #[pin] a: Big, y: u8, #[pin] b: (u8, u64, D), x: [u16; 3] }",
        "let mut s = Box::pin(S { z: 1, a: Big(D::new(1), 2), y: 3, b: (4, 5, D::new(2)), x: [6; 3] }); let mut p = s.as_mut().project(); *p.z = 7; p.b.set((8, 9, D::new(3))); *p.y = 8; p.x[2] = 1; assert_eq!(p.a.1, 2); let o = s.as_mut().project_replace(S { z: 9, a: Big(D::new(4), 2), y: 3, b: (4, 5, D::new(5)), x: [6; 3] }); assert_eq!((o.z, o.y, o.x[2]), (7, 8, 1));")
    add("move-unpinned", "#[pin_project] pub struct S { a: D, b: Vec<D> } #[pin_project(!Unpin)] pub struct N { a: D, b: Vec<D> }",
        "let mut s = S { a: D::new(1), b: vec![D::new(2)] }; { let p = Pin::new(&mut s).project(); p.b.push(D::new(3)); *p.a = D::new(4); } let t = s; let S { a, b } = t; assert_eq!(a.id() + b[1].id(), 7); let mut n = Box::pin(N { a, b }); let p = n.as_mut().project(); let taken = core::mem::take(p.b); core::mem::swap(p.a, &mut D::new(8)); drop(n); assert_eq!(taken.len(), 2);")
    add("threads", "#[pin_project(project_replace)] pub struct S { #[pin] a: std::sync::Mutex<u32>, b: u32 }",
        "let mut x = Box::pin(S { a: std::sync::Mutex::new(1), b: 2 }); std::thread::scope(|s| { let p = x.as_mut().project(); let a = p.a; let b = p.b; s.spawn(move || { *a.lock().unwrap() += 1; }); s.spawn(move || { *b += 1; }); }); std::thread::scope(|s| { let r = x.as_ref().project_ref(); s.spawn(move || { *r.a.lock().unwrap() += *r.b; }); s.spawn(move || { *r.a.lock().unwrap() += *r.b; }); }); let mut y = std::thread::spawn(move || { let o = x.as_mut().project_replace(S { a: std::sync::Mutex::new(0), b: 0 }); assert_eq!(o.b, 3); x }).join().unwrap(); *y.as_mut().project().b = 4;", 1)
    add("self-ref", "#[pin_project] pub struct Node { v: u32, #[pin] r: R } #[derive(Default)] pub struct R { x: core::cell::Cell<u32>, p: core::cell::Cell<*const core::cell::Cell<u32>>, _p: PhantomPinned } impl R { fn link(self: Pin<&mut Self>) { let q: *const _ = &self.x; self.p.set(q); } fn get(&self) -> u32 { if self.p.get().is_null() { 0 } else { unsafe { (*self.p.get()).get() } } } } impl Drop for R { fn drop(&mut self) { self.get(); } }",
        "let mut n = Box::pin(Node { v: 1, r: R::default() }); n.as_mut().project().r.link(); for i in 0..3 { *n.as_mut().project().v += 1; n.as_ref().project_ref().r.x.set(i); assert_eq!(n.as_ref().project_ref().r.get(), i); } let mut m = Box::pin(Node { v: 7, r: R::default() }); m.as_mut().project().r.link(); core::mem::swap(n.as_mut().project().v, m.as_mut().project().v); n.as_mut().set(Node { v: 0, r: R::default() }); n.as_mut().project().r.link(); drop(m);", 1)
    add("mutual", "#[pin_project(project = PP, project_replace = PO)] pub enum Fu { Run(#[pin] D, Option<Box<D>>), Done(D), Gone }",
        "let mut v: Vec<Pin<Box<Fu>>> = (0..3).map(|i| Box::pin(Fu::Run(D::new(i + 1), Some(Box::new(D::new(i + 10)))))).collect(); let mut outs = vec![]; for f in v.iter_mut() { let o = match f.as_mut().project() { PP::Run(_, o) => o.take().unwrap(), _ => panic!() }; f.as_mut().set(Fu::Done(*o)); if let PO::Done(d) = f.as_mut().project_replace(Fu::Gone) { outs.push(d); } } assert_eq!(outs[2].id(), 12);", 16)
    add("generic-drop", "#[pin_project(PinnedDrop)] pub struct S<'a, T, const N: usize> where T: 'a { #[pin] a: [T; N], b: &'a mut Vec<D> } #[pinned_drop] impl<T, const N: usize> PinnedDrop for S<'_, T, N> { fn drop(self: Pin<&mut Self>) { mcrt::point(); self.project().b.push(D::new(50)); } }",
        "let mut v = vec![]; { let _x = Box::pin(S::<_, 2> { a: [D::new(1), D::new(2)], b: &mut v }); } { let _y = core::pin::pin!(S::<D, 0> { a: [], b: &mut v }); } assert_eq!(v.len(), 2);", 8)
    return out


def run(ctx):
    th = ctx.thorough
    its = []

    def structs(c):
        n = c.pick("fields", [1, 2, 3], free=True)
        st = c.pick("style", ["named", "tuple"], free=True)
        m = c.pick("mask", masks(n), free=True)
        a = c.pick("args", [dict(replace=""), dict(pinned_drop=True), dict(project="SProj", project_ref="SRef", replace="SOwn", unpin="!Unpin")], free=True)
        if not th and ((n == 3 and (st == "named") == (sum(m) % 2 == 0)) or (n == 3 and "unpin" in a) or (n == 2 and "unpin" in a and st == "tuple") or (n == 2 and "pinned_drop" in a and st == "named")):
            raise Prune
        return ("struct", Item("struct", [mk(st, m)], **a), (3 if n == 1 and th else 2) if n < 3 else (2 if th else 1))
    its += ctx.explore(structs)
    VS = [("unit", ()), ("tuple", (1,)), ("named", (0,)), ("named", (1, 0)), ("tuple", (0, 1)), ("tuple", (1, 1)), ("named", (0, 0))]

    def enums(c):
        a = c.pick("v0", VS, free=True)
        b = c.pick("v1", VS, free=True)
        ar = c.pick("args", [dict(project="SProj", project_ref="SRef", replace="SOwn"), dict(project="SProj", project_ref="SRef", pinned_drop=True)], free=True)
        if not a[1] and not b[1]:
            raise Prune
        if not th and ("pinned_drop" in ar) and a[1] != (1, 0) and b[1] != (0, 1):
            raise Prune
        return ("enum", Item("enum", [mk(a[0], a[1], "V0"), mk(b[0], b[1], "V1")], **ar), 2 if th else 1)
    its += ctx.explore(enums)
    its.append(("enum", Item("enum", [mk("named", (1, 0), "V0"), mk("tuple", (1,), "V1")], project="SProj", project_ref="SRef", replace="SOwn"), 2))
    TYS = ["Reg", "U", "Box<D>", "A32", "Option<D>", "Odd"]
    for t in TYS:
        for m in ((1, 0), (0, 1), (1, 1)):
            if not th and t not in ("Reg", "A32") and m != (1, 0):
                continue
            its.append(("types/" + t, Item("struct", [mk("named", m, tys=["Reg" if t != "Reg" else "D", t][::-1])], replace=""), 2 if t == "Reg" or th else 1))
        if t == "Reg" or th:
            its.append(("types/" + t, Item("enum", [mk("tuple", (1, 0), "V0", tys=[t, "D"]), mk("named", (1,), "V1", tys=[t])], project="SProj", project_ref="SRef", replace="SOwn"), 2))
    ps = []
    for tag, it, d in its:
        p = Prog(it.module().replace("use mcrt::{self,", "use mcrt::{self, Reg,"), tag=tag)
        p.meta["depth"] = d
        n = sum(len(v.fields) for v in it.variants)
        p.meta["weight"] = (4 + 3 * n) ** d
        ps.append(p)
    main = lambda p: f'{p.name}::lean("{p.name}", {p.meta["depth"]});' if "depth" in p.meta else f'{p.name}::go("{p.name}", {p.meta.get("len", 0)});'

    il = []
    for n in (1, 2, 3):
        for st in ("named", "tuple"):
            for m in masks(n):
                if n == 3 and not th and st == "named":
                    continue
                p = interleave(Item("struct", [mk(st, m)], project="SProj", project_ref="SRef"), 0)
                p.meta["len"] = {1: 3, 2: 3, 3: 2}[n] + (1 if th and n > 1 else 0)
                p.meta["weight"] = (2 * n) ** p.meta["len"]
                il.append(p)
    for m in masks(2):
        for k, tys in enumerate((["Reg", "D"], ["U", "Box<D>"], ["A32", "Odd"])):
            p = interleave(Item("struct" if k else "enum", [mk("named" if k % 2 else "tuple", m, tys=tys, name="V0")] + ([] if k else [V("V1", "unit")]), project="SProj", project_ref="SRef"), 0)
            p.meta["len"] = 2 if not th else 3
            il.append(p)
    sp = specials()
    for p in sp:
        p.meta["weight"] = 400
    ctl = [Prog("pub fn go(n: &str, _d: usize) { mcrt::single(n, || { let mut x = 1; let p: *mut i32 = &mut x; let r = &mut x; unsafe { *p = 2; } *r = 3; Ok(1) }) }", tag="control/aliasing"),
           Prog("pub fn go(n: &str, _d: usize) { mcrt::single(n, || { let b = Box::new(1); let c = unsafe { core::ptr::read(&b) }; drop(b); drop(c); Ok(1) }) }", tag="control/double-free"),
           Prog("pub fn go(n: &str, _d: usize) { mcrt::single(n, || { core::mem::forget(mcrt::D::new(1)); Ok(1) }) }", tag="control/leak")]
    for p in ctl:
        p.meta["alone"] = True
    flags = "-Zmiri-symbolic-alignment-check"
    ctx.judge(ps + il + sp, "accepted")
    ctx.miri(ps + il + sp, main, part="stacked-borrows", flags=flags, controls=ctl)
    if th:
        ctx.miri(ps + il + sp, main, part="tree-borrows", flags=flags + " -Zmiri-tree-borrows", controls=ctl)
    # the same programs natively with the full event model (addresses, exact drop events)
    ctx.run([p for p in ps], lambda p: f'{p.name}::go("{p.name}", 2);', part="native")
