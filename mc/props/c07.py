"""C07: a pinned destructor runs exactly once, in place, before the fields are dropped."""
from core import Prog, Prune
from shapes import *
from props.c01 import mk, masks, styles, deep_enums
import itertools
import kinds

BOUNDS = ("all PinnedDrop structs with <=3 fields / enums with <=2 (3) variants and all masks, enums with a variant of 3-4 (5) fields, x 57 drop contexts x every "
          "panicking destructor; all operation histories of depth 2 (3); all two-level nestings with/without pinned "
          "destructors on each level x every panic point; unsized and generic types")

PDARGS = [dict(), dict(project="SProj"), dict(project_ref="SRef"), dict(unpin="!Unpin"), dict(unpin="UnsafeUnpin"),
          dict(project="SProj", project_ref="SRef", unpin="!Unpin")]


def pd_items(ctx):
    th = ctx.thorough

    def structs(c):
        n = c.pick("fields", range(1, 5 if th else 4), free=True)
        st = c.pick("style", ["named", "tuple"], free=True)
        m = c.pick("mask", masks(n), free=True)
        a = c.pick("args", PDARGS if n <= 2 or th else PDARGS[:1], free=True)
        order = c.pick("order", [None, [1, 0]] if a else [None], free=True)
        return Item("struct", [mk(st, m)], pinned_drop=True, argorder=order, **a)

    def enums(c):
        nv = c.pick("variants", range(1, 4 if th else 3), free=True)
        vs = []
        for k in range(nv):
            n = c.pick(f"fields{k}", range(0, 3 if nv < 3 else 2), free=True)
            st = c.pick(f"style{k}", styles(n), free=True)
            m = c.pick(f"mask{k}", masks(n), free=True)
            vs.append(mk(st, m, f"V{k}"))
        if not any(v.fields for v in vs):
            raise Prune
        a = c.pick("args", PDARGS if nv == 1 else PDARGS[-1:], free=True)
        return Item("enum", vs, pinned_drop=True, **a)

    return ctx.explore(structs) + ctx.explore(enums)


def nested(ctx):
    """outer{in, in} with pinned destructors on any level; every panic point"""
    out = []
    forms = ["named", "tuple", "enum"]

    def gen(c):
        of = c.pick("outer", forms, free=True)
        inf = c.pick("inner", forms, free=True)
        opd = c.pick("outer pd", [True, False], free=True)
        ipd = c.pick("inner pd", [True, False], free=True)
        pins = c.pick("pins", [(1, 1), (1, 0), (0, 0)], free=True)
        gen_ = c.pick("generic", [False, True], free=True)
        ctxk = c.pick("ctx", ["box", "set", "vec", "unwind", "local"], free=True)
        return (of, inf, opd, ipd, pins, gen_, ctxk)

    for of, inf, opd, ipd, pins, g, ck in ctx.explore(gen):
        def decl(name, form, pd, tys, pins, gp, tail=""):
            a = "(PinnedDrop)" if pd else ""
            f = [("#[pin] " if p else "") + t for t, p in zip(tys, pins)]
            if form == "named":
                b = f"pub struct {name}{gp} {{ " + ", ".join(("#[pin] " if p else "") + f"f{i}: {t}" for i, (t, p) in enumerate(zip(tys, pins))) + " }"
                ctor = lambda xs: f"{name} {{ " + ", ".join(f"f{i}: {x}" for i, x in enumerate(xs)) + " }"
            elif form == "tuple":
                b = f"pub struct {name}{gp}({', '.join(f)});"
                ctor = lambda xs: f"{name}({', '.join(xs)})"
            else:
                b = f"pub enum {name}{gp} {{ Z, V({', '.join(f)}), W {{ x: u8 }} }}"
                ctor = lambda xs: f"{name}::V({', '.join(xs)})"
            return f"#[pin_project{a}] {b}\n", ctor
        it = "T" if g else "D"
        idecl, ictor = decl("In", inf, ipd, [it, it], (1, 0), "<T>" if g else "")
        odecl, octor = decl("Out", of, opd, ["In<T>", "In<T>"] if g else ["In", "In"], pins, "<T>" if g else "")
        pdi = (f"#[pinned_drop] impl{'<T>' if g else ''} PinnedDrop for In{'<T>' if g else ''} {{ fn drop(self: Pin<&mut Self>) {{ hit(\"I\"); }} }}\n" if ipd else "")
        pdo = (f"#[pinned_drop] impl{'<T>' if g else ''} PinnedDrop for Out{'<T>' if g else ''} {{ fn drop(self: Pin<&mut Self>) {{ hit(\"O\"); }} }}\n" if opd else "")
        # expected event order for one Out value with ids base..base+3
        def seq(b):
            s = ["O"] if opd else []
            for k in (0, 1):
                s += (["I"] if ipd else []) + [f"D{b + 2 * k}", f"D{b + 2 * k + 1}"]
            return s
        vals = 2 if ck in ("set", "vec") else 1
        exp = sum((seq(1 + 4 * k) for k in range(vals)), [])
        mkv = lambda b: octor([ictor([f"D::new({b})", f"D::new({b + 1})"]), ictor([f"D::new({b + 2})", f"D::new({b + 3})"])])
        code = {"box": f"drop(Box::pin({mkv(1)}));", "local": f"let _x = {mkv(1)};",
                "set": f"let mut x = Box::pin({mkv(1)}); x.as_mut().set({mkv(5)}); drop(x);",
                "vec": f"drop(vec![{mkv(1)}, {mkv(5)}]);", "unwind": f"let _x = {mkv(1)}; panic!(\"outer\");"}[ck]
        src = ("use core::pin::Pin; use pin_project::{pin_project, pinned_drop}; use mcrt::{D, Ev};\n"
               "fn hit(s: &str) { mcrt::note(s); mcrt::log_fire(); }\n"
               + idecl + odecl + pdi + pdo +
               f"pub fn go(n: &str, _d: usize) {{ mcrt::single(n, || mcrt::all_panics(&{exp!r}, {str(ck == 'unwind').lower()}, || {{ {code} }})); }}\n").replace("'", '"')
        out.append(Prog(src, tag=f"nested/{of}/{inf}/{ck}"))
    return out


def special(ctx):
    pre = "use core::pin::Pin; use pin_project::{pin_project, pinned_drop}; use mcrt::{D, Ev};\nfn hit(s: &str) { mcrt::note(s); mcrt::log_fire(); }\n"
    out = []

    def add(tag, items, exp, code, unwinds=False):
        e = "[" + ", ".join(f'"{x}"' for x in exp) + "]"
        out.append(Prog(pre + items + f"pub fn go(n: &str, _d: usize) {{ mcrt::single(n, || mcrt::all_panics(&{e}, {str(unwinds).lower()}, || {{ {code} }})); }}\n", tag="special/" + tag))
    PDB = "{ fn drop(self: Pin<&mut Self>) { hit(\"P\"); } }"
    for pin in ("#[pin] ", ""):
        for args in ("PinnedDrop", "PinnedDrop, !Unpin", "!Unpin, PinnedDrop", "PinnedDrop, UnsafeUnpin", "project = SP, PinnedDrop"):
            add("slice", f"#[pin_project({args})] pub struct S<T: ?Sized> {{ a: D, {pin}t: T }}\n#[pinned_drop] impl<T: ?Sized> PinnedDrop for S<T> {PDB}\n",
                ["P", "D1", "D2", "D3"], "let b: Box<S<[D; 2]>> = Box::new(S { a: D::new(1), t: [D::new(2), D::new(3)] }); let b: Box<S<[D]>> = b; drop(b);")
            add("dyn", f"#[pin_project({args})] pub struct S<T: ?Sized> {{ a: D, {pin}t: T }}\n#[pinned_drop] impl<T: ?Sized> PinnedDrop for S<T> {PDB}\ntrait Tr {{}} impl Tr for D {{}}\n",
                ["P", "D1", "D2"], "let b: Pin<Box<S<dyn Tr>>> = Box::pin(S { a: D::new(1), t: D::new(2) }); drop(b);")
            add("unsized-tail", f"#[pin_project({args})] pub struct S<T: ?Sized>({pin}D, {pin}T);\n#[pinned_drop] impl<T> PinnedDrop for S<T> where T: ?Sized {PDB}\n",
                ["P", "D1", "D2", "D3"], "let b: std::rc::Rc<S<[D]>> = std::rc::Rc::new(S(D::new(1), [D::new(2), D::new(3)])); drop(b);")
            if "UnsafeUnpin" not in args:
                add("lifetime", f"#[pin_project({args})] pub struct S<'a, T: 'a> {{ {pin}t: T, r: Option<&'a T>, d: D }}\n#[pinned_drop] impl<'a, T> PinnedDrop for S<'a, T> {PDB}\n",
                    ["P", "D1", "D2"], "let s = S { t: D::new(1), r: None, d: D::new(2) }; drop(s);")
            add("const", f"#[pin_project({args})] pub struct S<T, const N: usize> {{ {pin}t: [T; N], d: D }}\n#[pinned_drop] impl<T, const N: usize> PinnedDrop for S<T, N> {PDB}\n",
                ["P", "D1", "D2", "D3"], "let s = S { t: [D::new(1), D::new(2)], d: D::new(3) }; drop(s);")
    # elided lifetime in the impl, mut self, qualified Pin, unit return
    for sig in ("fn drop(self: Pin<&mut Self>)", "fn drop(mut self: Pin<&mut Self>)", "fn drop(self: core::pin::Pin<&mut Self>)", "fn drop(self: ::std::pin::Pin<&mut Self>) -> ()",
                "#[inline] fn drop(self: Pin<&mut Self>)", "#[allow(unused_mut)] fn drop(mut self: Pin<&mut Self>)"):
        add("sig", f"#[pin_project(PinnedDrop)] pub struct S<'a, T> {{ #[pin] t: T, r: &'a u8 }}\n#[pinned_drop] impl<T> PinnedDrop for S<'_, T> {{ {sig} {{ hit(\"P\"); }} }}\n",
            ["P", "D1"], "let r = 3; let s = S { t: D::new(1), r: &r }; drop(s);")
    # the destructor works on live fields through the projection
    for nm, body in (("project", "let mut p = self.project(); p.a.set(D::new(90)); *p.b = D::new(91);"),
                     ("reborrow", "let mut this = self; this.as_mut().project().a.set(D::new(90)); let q = this.as_mut().project(); *q.b = D::new(91);"),
                     ("method", "fn h(p: Pin<&mut S>) { let mut p = p.project(); p.a.set(D::new(90)); *p.b = D::new(91); } h(self);")):
        out.append(Prog(pre + f"#[pin_project(PinnedDrop)] pub struct S {{ #[pin] a: D, b: D }}\n#[pinned_drop] impl PinnedDrop for S {{ fn drop(self: Pin<&mut Self>) {{ {body} }} }}\n"
                        "pub fn go(n: &str, _d: usize) { mcrt::single(n, || mcrt::all_panics_min(&[\"D1\", \"D2\", \"D90\", \"D91\"], || { drop(Box::pin(S { a: D::new(1), b: D::new(2) })); })); }\n",
                        tag="special/body-" + nm))
    # every early exit of the body still drops the fields once
    for body in ("hit(\"P\"); return;", "if true { hit(\"P\"); return; } hit(\"X\");", "hit(\"P\"); let r: Result<(), ()> = (|| { Err(())?; Ok(()) })(); let _ = r;",
                 "loop { hit(\"P\"); break; }", "let _this = self; hit(\"P\");", "let s: Pin<&mut Self> = self; hit(\"P\"); drop(s);", "hit(\"P\"); let _ = std::panic::catch_unwind(|| panic!(\"inner\"));",
                 "fn drop() {} drop(); hit(\"P\");", "struct G; impl Drop for G { fn drop(&mut self) { hit(\"P\") } } let _g = G;"):
        add("exit", f"#[pin_project(PinnedDrop)] pub struct S {{ #[pin] a: D, b: D }}\n#[pinned_drop] impl PinnedDrop for S {{ fn drop(self: Pin<&mut Self>) {{ {body} }} }}\n",
            ["P", "D1", "D2"], "drop(S { a: D::new(1), b: D::new(2) });")
    return out


def run(ctx):
    ps = []
    for it in pd_items(ctx):
        src = it.module().replace("pub fn go(", "pub fn ctx(n: &str) { mcrt::drop_contexts::<S>(n) }\npub fn go(")
        p = Prog(src, tag="contexts")
        p.meta["depth"] = 2 if not ctx.thorough or max(len(v.fields) for v in it.variants) > 2 else 3
        ps.append(p)
    ctx.run(ps, lambda p: f'{p.name}::ctx("{p.name}");', part="drop-contexts")
    ps += [Prog(it.module(), tag="enum-deep", meta={"depth": 1}) for it in deep_enums(ctx, pinned_drop=True, project="SProj", project_ref="SRef")]
    ctx.run(ps, lambda p: f'{p.name}::go("{p.name}", {p.meta["depth"]});', part="histories")
    # without the argument, nothing but the fields is dropped (same contexts, plain annotated twin)
    tw = []
    for it in ctx.explore(lambda c: Item("struct", [mk(c.pick("s", ["named", "tuple"], free=True), c.pick("m", masks(2), free=True))])):
        tw.append(Prog(it.module().replace("pub fn go(", "pub fn ctx(n: &str) { mcrt::drop_contexts::<S>(n) }\npub fn go("), tag="no-destructor"))
    ctx.run(tw, lambda p: f'{p.name}::ctx("{p.name}");', part="no-destructor")
    ctx.run(nested(ctx) + special(ctx), lambda p: f'{p.name}::go("{p.name}", 0);', part="nested")
    ctx.run([Prog(it.module(), tag="spelling") for it in spelled_items(ctx, pinned_drop=True)], lambda p: f'{p.name}::go("{p.name}", 1);', part="spellings")
    ctx.run(kinds.drops(ctx), lambda p: f'{p.name}::go("{p.name}");', part="kinds")
