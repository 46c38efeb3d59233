"""C14: misplaced pin markers and unsupported items are never silently accepted."""
from core import Prog, Prune
import itertools

BOUNDS = ("every set of <=2 (quick) / <=3 (thorough) marker spellings (plain, raw, cfg_attr, malformed) over every attribute position (before/after the attribute, item, generic parameters, variants, fields, nested) of "
          "6 struct/enum forms x argument lists; every unsupported item kind x 5 ways of attaching the attribute; every sequence of two attribute spellings; every "
          "empty/discriminant pattern of enums with <=3 variants")
PRE = "use core::marker::PhantomPinned; use core::pin::Pin; use pin_project::{pin_project, pinned_drop}; use pin_project as ppc; use pin_project::pin_project as pp;\n"
OKM = ["#[pin]", "#[cfg_attr(all(), pin)]", "#[cfg_attr(any(), pin)]", "#[cfg_attr(any(), pin(foo))]", "#[cfg_attr(all(), allow(unused), pin)]", "#[allow(unused)]", "/// #[pin]\n", "#[r#pin]", "#[cfg_attr(all(), r#pin)]"]
PINS = {"#[r#pin]": 1, "#[cfg_attr(all(), r#pin)]": 1, "#[pin]": 1, "#[cfg_attr(all(), pin)]": 1, "#[cfg_attr(all(), allow(unused), pin)]": 1, "#[cfg_attr(any(), pin)]": 0, "#[cfg_attr(any(), pin(foo))]": 0, "#[allow(unused)]": 0, "/// #[pin]\n": 0}
BADM = ["#[pin()]", "#[pin(foo)]", "#[pin = \"x\"]", "#[pin(true)]", "#[pin[]]", "#[pin{}]", "#[pin(__private())]", "#[pin(__private(PinnedDrop))]", "#[cfg_attr(all(), pin(foo))]", "#[cfg_attr(all(), pin, pin)]", "#[pin] #[pin]", "#[pin] #[allow(unused)] #[pin]", "#[Pin]", "#[pinned]", "#[pin_project]",
        "#[pin_project::pin]", "#[pin(pin)]", "#[pin, pin]", "#[unsafe(pin)]", "#[pin = pin]", "#![pin]", "#[pin::pin]", "#[cfg_attr(all(), pin())]", "#[r#pin()]", "#[r#pin(foo)]", "#[r#pin = \"x\"]", "#[r#pin] #[pin]", "#[pin] #[r#pin]", "#[r#pin] #[r#pin]", "#[cfg_attr(all(), pin, r#pin)]", "#[r#pin(__private())]"]

# positions: name -> placeholder; "f" positions are fields
FORMS = {
    "named": "$0 #[pin_project$A] $1 pub struct S<$g T> { $f1 pub a: T, $f2 b: u8 }",
    "tuple": "$0 #[pin_project$A] $1 pub struct S<$g T>($f1 pub T, $f2 u8) where T: Copy;",
    "one": "$0 #[pin_project$A] $1 struct S<$g T> { $f1 a: T }",
    "enum": "$0 #[pin_project$A] $1 pub enum S<$g T> { $v1 A($f1 T, $f2 u8), $v2 B { $f3 x: T }, $v3 C }",
    "enum1": "$0 #[pin_project$A] $1 enum S<$g T> { $v1 A { $f1 x: T, $f2 y: T } }",
    "enum2": "$0 #[pin_project$A] $1 enum S<$g T> { $v1 Z, $v2 Y(), $v3 X {}, A($f1 T) }",
}


def positions(t):
    import re
    return list(dict.fromkeys(re.findall(r"\$([01]|g|f\d|v\d)", t)))


def fill(t, a, marks):
    import re
    t = t.replace("$A", a)
    return re.sub(r"\$([01]|g|f\d|v\d)", lambda m: " ".join(marks.get(m.group(1), [])), t)


def run(ctx):
    th = ctx.thorough
    ps = []

    def markers(c):
        form = c.pick("form", list(FORMS), free=True)
        t = FORMS[form]
        a = c.pick("args", ["", "(!Unpin)", "(project = SP, project_ref = SR)"] if th else ["", "(project = SP, project_ref = SR)"], free=True)
        pos = positions(t)
        n = c.pick("n", [0, 1, 2, 3] if th and a == "" else [0, 1, 2] if a == "" or th else [0, 1], free=True)
        marks, ok, cnt, last = {}, True, {}, -1
        for i in range(n):
            q = c.pick(f"pos{i}", pos, free=True)
            if pos.index(q) < last:
                raise Prune
            last = pos.index(q)
            alpha = OKM + BADM if n < 2 or (i == 0 and n == 2 and form in ("named", "enum")) else OKM[:4] + ["#[r#pin]"] + BADM[:3] + BADM[8:10] if n == 2 else OKM[:2] + BADM[1:2]
            m = c.pick(f"mark{i}", alpha, free=True)
            marks.setdefault(q, []).append(m)
            if m in BADM:
                ok = False
            elif PINS[m]:
                if q[0] != "f":
                    ok = False
                cnt[q] = cnt.get(q, 0) + PINS[m]
                if cnt[q] > 1:
                    ok = False
        src = PRE + fill(t, a, marks) + "\n"
        if ok:
            src += "const _: () = assert!(mcrt::is_unpin!(S<u8>));\n" if a != "(!Unpin)" else ""
            tpos = {"named": ["f1"], "tuple": ["f1"], "one": ["f1"], "enum": ["f1", "f3"], "enum1": ["f1", "f2"], "enum2": ["f1"]}[form]
            if a != "(!Unpin)":
                hot = any(cnt.get(q) for q in tpos)
                src += f"const _: () = assert!(mcrt::is_unpin!(S<PhantomPinned>) == {str(not hot).lower()});\n"
        return Prog(src, "ok" if ok else "err", f"marker/{form}")
    ps += ctx.explore(markers)

    # ---- a marker on a part of the item that is not a field (parameters, variants of every kind)
    DEEP = ["struct S<$m T>($p T);", "struct S<$m 'a, T>($p &'a T);", "struct S<$m const N: usize>($p [u8; N]);", "struct S<T, $m U>($p T, U);", "enum S<$m T> { A($p T) }", "enum S<T, $m const N: usize> { A($p T), B([u8; N]) }", "enum S<T> { A($p T), $m B }", "enum S<T> { A($p T), $m B {} }", "enum S<T> { A($p T), $m B() }", "enum S<T> { $m A(u8), B($p T) }", "enum S<T> { $m A { x: u8 }, B($p T) }",
            "enum S<T> { A, B(u8), C { x: u8 }, D($p T), $m E }"]
    for d in DEEP:
        for m in ["#[pin]", "#[r#pin]", "#[cfg_attr(all(), pin)]", "#[pin()]", "#[pin(foo)]"]:
            for p in ("#[pin] ", ""):
                for a in ("", "(project = SP, project_ref = SR)", "(!Unpin)") if th else ("", "(project = SP, project_ref = SR)"):
                    ps.append(Prog(PRE + f"#[pin_project{a}] " + d.replace("$p ", p).replace("$m", m) + "\n", "err", f"deep/{d}"))
                    if m == "#[pin]":
                        ps.append(Prog(PRE + f"#[pin_project{a}] " + d.replace("$p ", p).replace("$m", "#[cfg_attr(any(), pin)]") + "\n", "ok", f"deep-ok/{d}"))

    # ---- unsupported items
    ATT = ["#[pin_project]", "#[pin_project()]", "#[::pin_project::pin_project]", "#[cfg_attr(all(), pin_project)]", "#[pin_project(project = SP, project_ref = SR)]", "#[pin_project(!Unpin)]"]
    ITEMS = ["union X { f: u8 }", "union X<T: Copy> { #[pin] f: T }", "fn x() {}", "unsafe fn x() {}", "async fn x() {}", "impl Y {}", "impl Y { fn f() {} }", "trait X {}", "trait X { #[pin] fn f(); }", "mod x {}", "const X: u8 = 0;", "static X: u8 = 0;", "type X = u8;", "use core as x;", "extern crate core as x;", "extern \"C\" {}",
             "macro_rules! x { () => {} }", "struct X;", "struct X {}", "struct X();", "struct X<T> where T: Copy;" if False else "struct X {  }", "enum X {}", "enum X { A }", "enum X { A, B }", "enum X { A() }", "enum X { A {} }", "enum X { A, B(), C {} }", "impl Clone for Y { fn clone(&self) -> Y { Y } }", "unsafe impl Send for Y {}", "pub(crate) union X { f: u8 }", "pub fn x() {}", "const fn x() {}",
             "trait X = Copy;", "id! { struct X { f: u8 } }", "default impl Y {}", "auto trait X {}", "union X {}"]
    for it in ITEMS:
        for at in ATT:
            ps.append(Prog(PRE + "pub struct Y; macro_rules! id { ($($t:tt)*) => { $($t)* } }\n" + at + " " + it + "\n", "err", f"item/{it}"))
        ps.append(Prog(PRE + "pub struct Y; macro_rules! id { ($($t:tt)*) => { $($t)* } }\nid! { #[pin_project] " + it + " }\n", "err", f"item-in-macro/{it}"))
        ps.append(Prog(PRE + "pub struct Y; macro_rules! id { ($($t:tt)*) => { $($t)* } }\nfn inside() { #[pin_project] " + it + " }\n", "err", f"item-in-fn/{it}"))
    for st in ("let x = 1;", "{}", "1 + 1;", "if true {}", "loop { break }", "match 1 { _ => {} }", "|| {};"):
        ps.append(Prog(PRE + "fn inside() { #[pin_project] " + st + " }\n", "err", f"stmt/{st}"))
    for t in ("struct X { #[pin_project] f: u8 }", "enum X { #[pin_project] A(u8) }", "fn f(#[pin_project] x: u8) {}", "impl u8 { #[pin_project] fn f() {} }", "trait X { #[pin_project] fn f(); }", "struct X<#[pin_project] T>(T);", "fn f() { match 1 { #[pin_project] _ => {} } }", "#![pin_project]", "mod x { #![pin_project] }", "extern \"C\" { #[pin_project] fn q(); }"):
        ps.append(Prog(PRE + t + "\n", "err", f"inner/{t}"))
    # supported counterparts
    for it in ("struct X { f: u8 }", "struct X(u8);", "enum X { A(u8) }", "enum X { A, B(u8) }", "enum X { A(), B { x: u8 }, C {} }", "struct X<T>(T) where T: Copy;", "pub(crate) struct X(());", "enum X { A(()) }", "enum X { A((), ()) , B}"):
        for at in ATT:
            ps.append(Prog(PRE + at + " " + it + "\n", "ok", f"item-ok/{it}"))
        ps.append(Prog(PRE + "fn inside() { #[pin_project] " + it + " }\n", "ok", f"item-ok-fn/{it}"))
        ps.append(Prog(PRE + "macro_rules! id { ($($t:tt)*) => { $($t)* } }\nid! { #[pin_project] " + it + " }\n", "ok", f"item-ok-macro/{it}"))
        ps.append(Prog(PRE + "macro_rules! id { ($i:item) => { #[pin_project] $i } }\nid! { " + it + " }\n", "ok", f"item-ok-macro-item/{it}"))

    # ---- the attribute twice
    SP = ["#[pin_project]", "#[pin_project::pin_project]", "#[::pin_project::pin_project]", "#[ppc::pin_project]", "#[pp]", "#[pin_project()]", "#[pin_project(!Unpin)]", "#[pin_project(project = SP)]", "#[cfg_attr(all(), pin_project)]", "#[cfg_attr(all(), pp)]", "#[pp(project_ref = SQ)]", "#[r#pin_project]", "#[pin_project::r#pin_project]"]
    for a in SP:
        for d in ("pub struct S<T> { #[pin] f: T }", "pub struct S<T>(#[pin] T);", "pub enum S<T> { A(#[pin] T), B }"):
            for mid in ("", "#[allow(unused)] ", "#[derive(Clone)] ", "#[auxmac::identity] "):
                ps.append(Prog(PRE + a + " " + mid + d + "\n", "ok", "once"))
                for b in SP:
                    ps.append(Prog(PRE + f"{a} {mid}{b} {d}\n", "err", f"twice/{a}/{b}"))
                ps.append(Prog(PRE + f"{a} {mid}#[cfg_attr(any(), pin_project)] {d}\n", "ok", "once-cfg"))
            ps.append(Prog(PRE + f"{a} #[derive(pin_project::__private::__PinProjectInternalDerive)] {d}\n", "err", "derive-by-hand"))
            ps.append(Prog(PRE + f"#[derive(pin_project::__private::__PinProjectInternalDerive)] {a} {d}\n", "err", "derive-by-hand"))
    for d in ("pub struct S<T> { #[pin] f: T }", "pub enum S<T> { A(#[pin] T), B }"):
        ps.append(Prog(PRE + "#[derive(pin_project::__private::__PinProjectInternalDerive)] " + d + "\n", "err", "derive-only"))

    # ---- discriminants: every enum of <=3 variants, each with/without fields and discriminant
    VK = ["", "(#[pin] u8)", "(u8)", "{ #[pin] x: u8 }", "()", "{}"]
    def discr(c):
        nv = c.pick("variants", [1, 2, 3], free=True)
        rep = c.pick("repr", ["#[repr(u8)] ", ""], free=True)
        attrpos = c.pick("attr", ["before", "after"], free=True)
        vs, ok, fields = [], True, False
        for i in range(nv):
            k = c.pick(f"kind{i}", VK if nv < 3 or th else VK[:2] + VK[4:5], free=True)
            d = c.pick(f"discr{i}", ["", f" = {i + 1}"] if nv == 3 else ["", f" = {i + 1}", " = { 3 + " + str(i) + " }", " = K" + str(i)], free=True)
            fields |= k not in ("", "()", "{}")
            ok &= not d
            vs.append(f"V{i}{k}{d}")
        a = "#[pin_project(project = SP)] "
        return Prog(PRE + "const K0: K = 7; const K1: K = 8; const K2: K = 9;\n".replace(": K =", ": u8 =" if rep else ": isize =") + (rep + a if attrpos == "before" else a + rep) + "pub enum S { " + ", ".join(vs) + " }\n" , "ok" if ok and fields else "err", "discriminant")

    def guard(c):
        p = discr(c)
        # repr(u8) on an enum with no variants-with-fields is fine; nothing to prune
        return p
    ps += ctx.explore(guard)
    ctx.judge(ps, part="programs", chunk=150)
