"""C13: generated methods and types appear as requested, with downgraded visibility."""
from core import Prog, Prune
import core, itertools

BOUNDS = ("item visibility {private, pub(self), pub(super), pub(in ..), pub(crate), pub} x 4 kinds x generated method / projection type / field x "
          "6 observer positions in the crate and one in another crate; every subset of requested projections x every method, name and "
          "unnamed name; 7 generic parameter lists x every projection type; field visibilities x observers")
PRE = "use core::pin::Pin; use core::marker::PhantomData; use pin_project::{pin_project, pinned_drop};\n"
VIS = {"": 3, "pub(self)": 3, "pub(super)": 2, "pub(in super::super)": 1, "pub(crate)": 0, "pub": 0}   # depth of the enclosing scope
# observers: (path of modules entered relative to the program, depth-compatible prefix)
# program layout: p { mod a { mod b { ITEM  mod child {} } mod b2 {} } mod a2 {} } and the crate outside p
OBS = {"same": 3, "child": 3, "parent": 2, "uncle": 2, "grand": 1, "cousin": 1, "crate": 0}


def scope_ok(vis, obs):
    """is something declared with `vis` in p::a::b visible from the observer?"""
    need = VIS[vis]
    return OBS[obs] >= need


PATH = {"same": "self::", "child": "super::", "parent": "self::b::", "uncle": "super::b::", "grand": "self::a::b::", "cousin": "super::a::b::"}


def layout(item, obs, code):
    """place `code` at the observer; $S is the path prefix to the item's module"""
    c = {k: "" for k in OBS}
    c[obs] = code.replace("$S", PATH[obs])
    return (f"pub mod a {{ pub mod b {{ {PRE} {item}\n {c['same']} pub mod child {{ use core::pin::Pin; {c['child']} }} }}\n use core::pin::Pin; {c['parent']} pub mod b2 {{ use core::pin::Pin; {c['uncle']} }} }}\n"
            f"use core::pin::Pin; {c['grand']} pub mod a2 {{ use core::pin::Pin; {c['cousin']} }}\n")


KINDS = {
    "named": ("struct S<T> { #[pin] pub f: T, pub g: u8 }", "S { f: 1u8, g: 2 }"),
    "tuple": ("struct S<T>(#[pin] pub T, pub u8);", "S(1u8, 2)"),
    "allpin": ("struct S<T> { #[pin] pub f: T, #[pin] pub g: u8 }", "S { f: 1u8, g: 2 }"),
    "nopin": ("struct S<T>(pub T, pub u8);", "S(1u8, 2)"),
    "enum": ("enum S<T> { V(#[pin] T, u8), W { #[pin] x: T } }", "S::V(1u8, 2)"),
}
GET = " pub fn get() -> Pin<Box<S<u8>>> { Box::pin($M) } pub fn val() -> S<u8> { $M }"
SUBSETS = ["(" + ", ".join(x for x in (p, r, o, u) if x) + ")" for p in ("", "project = SP") for r in ("", "project_ref = SR") for o in ("", "project_replace", "project_replace = SO") for u in ("", "!Unpin")]
FULL = "(project = SP, project_ref = SR, project_replace = SO)"


def run(ctx):
    th = ctx.thorough
    ps = []
    obs6 = [o for o in OBS if o != "crate"]

    # ---- visibility of methods and named projection types
    def vis(c):
        k = c.pick("kind", list(KINDS), free=True)
        v = c.pick("vis", list(VIS), free=True)
        o = c.pick("observer", obs6, free=True)
        via = c.pick("via", ["item", "vis fragment"] + (["macro"] if th else []), free=True)
        if via != "item" and not th and k not in ("named", "enum"):
            raise Prune
        a = c.pick("args", SUBSETS if via == "item" else [FULL, "(project_replace)", "(project = SP, project_ref = SR, !Unpin)"], free=True)
        if not th and k in ("tuple", "allpin", "nopin") and "!Unpin" in a:
            raise Prune
        if k == "enum" and ("project_replace)" in a or "project_replace," in a):
            raise Prune
        what = c.pick("probe", ["project", "project_ref", "project_replace", "SP", "SR", "SO", "method-path", "S", "unpinned"], free=True)
        decl, mkv = KINDS[k]
        if k == "enum" and {"project": "SP", "project_ref": "SR"}.get(what, "") not in a or k == "enum" and what == "method-path" and not ("SP" in a and "SR" in a):
            raise Prune
        item = f"#[pin_project{a}] {v} {decl}"
        if via == "vis fragment":
            item = f"macro_rules! mk {{ ($v:vis , go) => {{ #[pin_project{a}] $v {decl} }} }} mk!({v} , go);"
        elif via == "macro":
            item = f"macro_rules! mk {{ ($($t:tt)*) => {{ #[pin_project{a}] $($t)* }} }} mk!({v} {decl});"
        item += GET.replace("$M", mkv)
        ok = scope_ok(v, o)
        if what == "project":
            code = "fn t() { let mut x = $Sget(); let _ = x.as_mut().project(); }"
        elif what == "project_ref":
            code = "fn t() { let x = $Sget(); let _ = x.as_ref().project_ref(); }"
        elif what == "project_replace":
            if "replace" not in a:
                raise Prune
            code = "fn t() { let mut x = $Sget(); let _ = x.as_mut().project_replace($Sval()); }"
        elif what in ("SP", "SR", "SO"):
            if what not in a:
                raise Prune
            code = f"mod q {{ use super::*; }} type Q<'x> = $S{what}<{'' if what == 'SO' else chr(39) + 'x, '}u8>;"
        elif what == "method-path":
            code = "fn t() { let _ = $SS::<u8>::project; let _ = $SS::<u8>::project_ref; }"
        elif what == "S":
            code = "type Q = $SS<u8>;"
        else:
            code = "fn t() { let x = $Sget(); drop(x); }"
        return Prog(layout(item, o, code), "ok" if ok else "err", f"visibility/{via}/{what}/{v or 'private'}/{o}")
    ps += ctx.explore(vis)

    # ---- field visibility in projected structs
    FV = ["", "pub(self)", "pub(super)", "pub(in super::super)", "pub(crate)", "pub"]

    def fields(c):
        st = c.pick("style", ["named", "tuple"], free=True)
        iv = c.pick("item vis", ["pub", "pub(super)", "pub(crate)"], free=True)
        fv = c.pick("field vis", FV, free=True)
        pin = c.pick("pin", [True, False], free=True)
        o = c.pick("observer", obs6, free=True)
        m = c.pick("method", ["as_mut().project()", "as_ref().project_ref()", "as_mut().project_replace($Sval())", "direct"], free=True)
        named = c.pick("named", [True, False], free=True)
        other = c.pick("others", ["pub", ""] if th else ["pub"], free=True)
        pa = "#[pin] " if pin else ""
        npa = "" if pin else "#[pin] "
        if st == "named":
            decl, mkv, acc = f"struct S {{ {npa}{other} e: u8, {pa}{fv} f: u8, {other} g: u8 }}", "S { e: 0, f: 1, g: 2 }", "f"
        else:
            decl, mkv, acc = f"struct S({npa}{other} u8, {pa}{fv} u8, {other} u8);", "S(0, 1, 2)", "1"
        item = f"#[pin_project{FULL if named else '(project_replace)'}] {iv} {decl} pub fn get() -> Pin<Box<S>> {{ Box::pin({mkv}) }} pub fn val() -> S {{ {mkv} }}"
        if m == "direct":
            ok = scope_ok(fv, o) and scope_ok(iv, o)
            code = f"fn t() {{ let x = $Sget(); let _ = &x.{acc}; }}"
        else:
            ok = scope_ok(fv, o) and scope_ok(iv, o)
            code = f"fn t() {{ let mut x = $Sget(); let _y = x.{m}.{acc}; }}"
        return Prog(layout(item, o, code), "ok" if ok else "err", f"field/{m}/{fv or 'private'}/{o}")
    ps += ctx.explore(fields)

    # private fields keep the projection from being built or fully matched elsewhere
    for fv in ("", "pub"):
        item = f"#[pin_project(project = SP)] pub struct S {{ #[pin] {fv} f: u8, {fv} g: u8 }} pub fn get() -> Pin<Box<S>> {{ Box::pin(S {{ f: 1, g: 2 }}) }}"
        for o in obs6:
            ok = scope_ok(fv, o)
            ps.append(Prog(layout(item, o, "fn t() { let mut x = $Sget(); let $SSP { f, g } = x.as_mut().project(); }"), "ok" if ok else "err", "destructure"))
            ps.append(Prog(layout(item, o, "fn t(f: Pin<&mut u8>, g: &mut u8) { let _ = $SSP { f, g }; }"), "ok" if ok else "err", "construct"))

    # ---- which methods and types exist
    def exist(c):
        k = c.pick("kind", list(KINDS), free=True)
        p = c.pick("project", ["", "project = SP"], free=True)
        r = c.pick("ref", ["", "project_ref = SR"], free=True)
        o = c.pick("own", ["", "project_replace", "project_replace = SO"], free=True)
        u = c.pick("unpin", ["", "!Unpin", "UnsafeUnpin", "PinnedDrop"], free=True)
        if (k == "enum" and o == "project_replace") or (u == "PinnedDrop" and o):
            raise Prune
        w = c.pick("probe", ["project", "project_ref", "project_replace", "SP", "SR", "SO", "__SProjection", "__SProjectionRef", "__SProjectionOwned", "project_mut", "project_into", "set_project", "sig", "none"], free=True)
        decl, mkv = KINDS[k]
        a = ", ".join(x for x in (p, r, o, u) if x)
        e = k == "enum"
        s = PRE + f"#[pin_project({a})] pub {decl}\n"
        if u == "PinnedDrop":
            s += "#[pinned_drop] impl<T> PinnedDrop for S<T> { fn drop(self: Pin<&mut Self>) {} }\n"
        if w == "project":
            t, ok = "fn t(x: Pin<&mut S<u8>>) { let _ = x.project(); }", bool(p) or not e
        elif w == "project_ref":
            t, ok = "fn t(x: Pin<&S<u8>>) { let _ = x.project_ref(); }", bool(r) or not e
        elif w == "project_replace":
            t, ok = f"fn t(x: Pin<&mut S<u8>>) {{ let _ = x.project_replace({mkv}); }}", bool(o)
        elif w in ("SP", "SR", "SO"):
            t, ok = f"type Q<'a> = {w}<{'' if w == 'SO' else chr(39) + 'a, '}u8>;", w in a
        elif w.startswith("__"):
            t, ok = f"type Q<'a> = {w}<{'' if 'Owned' in w else chr(39) + 'a, '}u8>;", False
        elif w == "sig":
            t, ok = "", True
            if p or not e:
                t += f"fn t1<'p, T>(x: Pin<&'p mut S<T>>) {{ let f: fn(Pin<&'p mut S<T>>) -> {'SP' + chr(60) + chr(39) + 'p, T>' if p else '_'} = S::<T>::project; f(x); }}\n"
            if r or not e:
                t += f"fn t2<'p, T>(x: Pin<&'p S<T>>) {{ let f: fn(Pin<&'p S<T>>) -> {'SR' + chr(60) + chr(39) + 'p, T>' if r else '_'} = S::<T>::project_ref; f(x); }}\n"
            if o:
                t += f"fn t3<'p, T>(x: Pin<&'p mut S<T>>, n: S<T>) {{ let f: fn(Pin<&'p mut S<T>>, S<T>) -> {'SO<T>' if '=' in o else '_'} = S::<T>::project_replace; f(x, n); }}\n"
        elif w == "none":
            t, ok = "", True
        else:
            t, ok = f"fn t(x: Pin<&mut S<u8>>) {{ let _ = x.{w}(); }}", False
        return Prog(s + t + "\n", "ok" if ok else "err", f"exists/{k}/{w}/{a}")
    ps += ctx.explore(exist)
    # the user may define items under the names that were not requested, and methods that are not generated
    for k, (decl, mkv) in KINDS.items():
        for a, extra, ok in (("", "struct SP; struct SR; struct SO;", True), ("(project = SP)", "struct SR; struct SO;", True), ("(project = SP)", "struct SP;", False), ("(project_ref = SR)", "struct SR;", False), ("(project_replace = SO)", "enum SO {}", False), ("(project = SP)", "mod SP {}", False), ("(project = SP)", "fn SP() {}", k not in ("tuple", "nopin")),
                             ("(project = SP)", "const SP: u8 = 0;", k not in ("tuple", "nopin")), ("", "impl<T> S<T> { fn project_replace(self: Pin<&mut Self>) {} }", True), ("", "impl<T> S<T> { fn project(self: Pin<&mut Self>) {} fn project_ref(&self) {} }", k == "enum"), ("(project = SP)", "impl<T> S<T> { fn project(&self) {} }", False),
                             ("(project = SP)", "impl<T> S<T> { fn project_ref(&self) {} }", k == "enum"), ("(project_ref = SR)", "impl<T> S<T> { fn project(&self) {} }", k == "enum"), ("(project_replace = SO)", "impl<T> S<T> { fn project_replace(&self) {} }", False), ("", "impl<T> S<T> { fn project_mut(&self) {} fn project_own(self) {} fn new() {} }", True)):
            ps.append(Prog(PRE + f"#[pin_project{a}] {decl}\n{extra}\n", "ok" if ok else "err", f"coexist/{k}/{a}/{extra}"))

    # ---- generics of projection types
    GEN = [("", "", "", "u8"), ("<T>", "T, ", "<T>", "T"), ("<'a, T>", "'a, T, ", "<'a, T>", "&'a T"), ("<'a, 'b, T, U>", "'a, 'b, T, U, ", "<'a, 'b, T, U>", "(&'a T, &'b U)"), ("<const N: usize>", "N, ", "<N>", "[u8; N]"), ("<T, const N: usize>", "T, N, ", "<T, N>", "[T; N]"), ("<'pin, T>", "'pin, T, ", "<'pin, T>", "&'pin T"),
           ("<T, U>", "T, U, ", "<T, U>", "(T, U)")]
    for gd, gu, g, ty in GEN:
        for k, d in (("named", f"struct S{gd} {{ #[pin] f: {ty} }}"), ("tuple", f"struct S{gd}(#[pin] {ty});"), ("enum", f"enum S{gd} {{ V(#[pin] {ty}), W }}")):
            s = PRE + f"#[pin_project{FULL}] {d}\n"
            ps_ = [x.strip() for x in gu.split(",") if x.strip()]
            lt = [x for x in ps_ if x.startswith("'")]
            rest = [x for x in ps_ if not x.startswith("'")]
            inner = ", ".join(["'p0"] + ps_)
            dg = ", ".join(["'p0"] + lt + [x for x in gd.strip("<>").split(", ") if x and not x.startswith("'")])
            for w in ("SP", "SR"):
                ps.append(Prog(s + f"fn t<{dg}>(x: {w}<{inner}>) {{}}\n", "ok", f"generics/{w}{gd}"))
                if lt:
                    ps.append(Prog(s + f"fn t<{dg}>(x: {w}<{', '.join(ps_)}>) {{}}\n", "err", f"generics-missing/{w}{gd}"))
                ps.append(Prog(s + f"fn t<{dg}>(x: {w}<{', '.join(['p0'.join([chr(39), ''])] * 2 + ps_)}>) {{}}\n", "err", f"generics-extra/{w}{gd}"))
                if rest:
                    ps.append(Prog(s + f"fn t<{dg}>(x: {w}<{', '.join([chr(39) + 'p0'] + lt)}>) {{}}\n", "err", f"generics-none/{w}{gd}"))
            m, meth = ("Pin<&'p0 mut S" + (f"<{', '.join(ps_)}>" if ps_ else "") + ">"), "project"
            ps.append(Prog(s + f"fn t<{dg}>(x: {m}) -> SP<{inner}> {{ x.project() }}\n", "ok", f"generics-method/SP{gd}"))
            ps.append(Prog(s + f"fn t<{dg}>(x: {m.replace(' mut', '')}) -> SR<{inner}> {{ x.project_ref() }}\n", "ok", f"generics-method/SR{gd}"))
            own = "SO" + (f"<{', '.join(ps_)}>" if ps_ else "")
            orig = "S" + (f"<{', '.join(ps_)}>" if ps_ else "")
            ps.append(Prog(s + f"fn t<{dg}>(x: {m}, n: {orig}) -> {own} {{ x.project_replace(n) }}\n", "ok", f"generics-method/SO{gd}"))
            ps.append(Prog(s + f"fn t<{dg}>(x: SO<{inner}>) {{}}\n", "err", f"generics-extra/SO{gd}"))
            # the extra lifetime is the borrow
            ps.append(Prog(s + f"fn t<{dg.replace(chr(39) + 'p0', chr(39) + 'p0, ' + chr(39) + 'q', 1)}>(x: {m}) -> SP<{inner.replace(chr(39) + 'p0', chr(39) + 'q')}> {{ x.project() }}\n", "err", f"generics-borrow/{gd}"))
    ctx.judge(ps, part="in-crate", chunk=120)

    # ---- another crate
    mods, clients = [], []
    n = 0
    for v in ("pub", "pub(crate)"):
        for k, (decl, mkv) in KINDS.items():
            for a in ([x for x in SUBSETS if "!" not in x] if k in ("named", "enum") else (FULL, "(project = SP)", "()")):
                if k == "enum" and (a == "()" or "project_replace)" in a):
                    continue
                mods.append(f"pub mod e{n} {{ {PRE} #[pin_project{a}] {v} {decl}" + GET.replace("$M", mkv) + " }\n")
                pb = [("", True), ("fn t() { let x = ext::e$n::get(); drop(x); }", v == "pub"), ("type Q = ext::e$n::S<u8>;", v == "pub"), ("fn t() { let mut x = ext::e$n::get(); let _ = x.as_mut().project(); }", False), ("fn t() { let x = ext::e$n::get(); let _ = x.as_ref().project_ref(); }", False),
                      ("fn t() { let mut x = ext::e$n::get(); let _ = x.as_mut().project_replace(ext::e$n::val()); }", False), ("type Q<'a> = ext::e$n::SP<'a, u8>;", False), ("type Q<'a> = ext::e$n::SR<'a, u8>;", False), ("type Q = ext::e$n::SO<u8>;", False), ("use ext::e$n::SP;", False), ("use ext::e$n::*; type Q<'a> = SP<'a, u8>;", False),
                      ("fn t<T>() { let _ = ext::e$n::S::<T>::project; }", False)]
                if v == "pub" and k == "named":
                    pb.append(("fn t() { let x = ext::e$n::get(); let _ = (x.f, x.g); }", True))
                if v == "pub":
                    pb.append((f"fn t() -> ext::e$n::S<u8> {{ ext::e$n::{mkv} }}", True))
                for t, ok in pb:
                    clients.append(Prog("use core::pin::Pin;\n" + t.replace("$n", str(n)) + "\n", "ok" if ok else "err", f"external/{v}/{k}/{a}"))
                n += 1
    ext, err = core.extern_lib(ctx.deps(), "ext", "#![allow(warnings)]\n" + "".join(mods))
    if ext is None:
        ctx.bad("external", "library with public annotated types does not compile: " + err, "".join(mods))
        return
    ctx.judge(clients, part="other-crate", extern=("mcrt", "auxmac", ext))
