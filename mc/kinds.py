"""Generic two-field items run over every pair of field kinds (see `Kind` in rt/lib.rs)."""
from core import Prog

PRE = "use core::pin::Pin; use core::marker::PhantomData; use pin_project::{pin_project, pinned_drop}; use mcrt::{Kind, KindFn};\n"
FORMS = ("named", "tuple", "enum", "enum1")


def item(form, pins, args, bound=": Kind"):
    g = f"<A{bound}, B{bound}>"
    a, b = ("#[pin] " if p else "" for p in pins)
    args = [x for x in args if x]
    if form.startswith("enum"):
        args += ["project = SP", "project_ref = SR"]
    at = f"#[pin_project({', '.join(args)})] " if args else "#[pin_project] "
    return at + {"named": f"pub struct S{g} {{ {a}a: A, {b}b: B }}\n", "tuple": f"pub struct S{g}({a}A, {b}B);\n",
                 "enum1": f"pub enum S{g} {{ V {{ {a}a: A, {b}b: B }} }}\n",
                 "enum": f"pub enum S{g} {{ U, V {{ {a}a: A, {b}b: B }}, W({b}A, {a}B) }}\n"}[form]


CTOR = {"named": "S { a: A::mk(k), b: B::mk(k + 1) }", "tuple": "S(A::mk(k), B::mk(k + 1))",
        "enum1": "S::V { a: A::mk(k), b: B::mk(k + 1) }", "enum": "if k < 4 { S::V { a: A::mk(k), b: B::mk(k + 1) } } else { S::W(A::mk(k), B::mk(k + 1)) }"}
MK = "fn mk<A: Kind, B: Kind>(k: u32) -> S<A, B> { %s }\n"
GO = "pub struct T; impl KindFn for T { fn go<A: Kind, B: Kind>(&self) -> Result<u64, String> { %s } }\npub fn go(n: &str) { mcrt::kind_pairs(n, T) }\n"


def combos(ctx):
    for form in FORMS:
        for pins in ((1, 1), (1, 0), (0, 1), (0, 0)):
            if ctx.thorough or form == "named" or pins == (1, 0):
                yield form, pins


def drops(ctx):
    """C07"""
    out = []
    for form, pins in combos(ctx):
        for args in ([], ["!Unpin"]) if ctx.thorough else ([],):
            out.append(Prog(PRE + item(form, pins, ["PinnedDrop"] + args) + "#[pinned_drop] impl<A: Kind, B: Kind> PinnedDrop for S<A, B> { fn drop(self: Pin<&mut Self>) { mcrt::note(\"P\"); mcrt::log_fire(); } }\n"
                            + MK % CTOR[form] + GO % "mcrt::kind_drops(&mk::<A, B>, &|k| [vec![\"P\".to_string()], A::events(k), B::events(k + 1)].concat())", tag=f"kinds/{form}"))
    return out


def replaces(ctx):
    """C10"""
    out = []
    for form, pins in combos(ctx):
        pat = {"named": "let {t} {{ a, b }} = {x};", "tuple": "let {t}(a, b) = {x};", "enum1": "", "enum": "let (a, b) = match {x} {{ {t}::V {{ a, b }} => (a, b), {t}::W(a, b) => (a, b), {t}::U => panic!(\"variant\") }};"}[form]
        # in W the pins are swapped, so compare old and new through V first
        body = "let mut w = vec![];"
        evs = ["A::events(1)", "B::events(2)"]
        body += "".join(f" w.extend({e});" for e, p in zip(evs, pins) if p) + "".join(f" w.extend({e});" for e, p in zip(evs, pins) if not p)
        body += " w.extend(A::events(2)); w.extend(B::events(3));\n mcrt::kind_seq(&w, &|| { let mut x = Box::pin(mk::<A, B>(1)); let at = &*x as *const S<A, B> as usize;\n  {\n  let o = x.as_mut().project_replace(mk::<A, B>(2));\n"
        if form.startswith("enum"):
            body += "  let (a, b) = match &o { Own::V { a, b } => (a, b), #[allow(unreachable_patterns)] _ => panic!(\"variant\") };\n"
        else:
            body += "  " + pat.format(t="Own", x="&o") + "\n"
        for v, t, k, p in (("a", "A", 1, pins[0]), ("b", "B", 2, pins[1])):
            body += f"  let _: &PhantomData<{t}> = {v};\n" if p else f"  assert!({v}.is({k}));\n"
        body += "  }\n  let r = x.as_ref().project_ref();\n"
        if form.startswith("enum"):
            body += "  let (a, b) = match r { SR::V { a, b } => (a, b), #[allow(unreachable_patterns)] _ => panic!(\"variant\") };\n"
        else:
            f = ("a", "b") if form == "named" else ("0", "1")
            body += f"  let (a, b) = (r.{f[0]}, r.{f[1]});\n"
        body += "  assert!(a.is(2)); assert!(b.is(3)); assert!(at == &*x as *const S<A, B> as usize);\n })"
        out.append(Prog(PRE + item(form, pins, ["project_replace = Own"]) + MK % CTOR[form] + GO % body, tag=f"kinds/{form}"))
    return out


def projects(ctx):
    """C01"""
    out = []
    for form, pins in combos(ctx):
        f = ("a", "b") if form != "tuple" else ("0", "1")
        if form.startswith("enum"):
            addr = "match &*x { S::V { a, b } => (a as *const A as usize, b as *const B as usize), #[allow(unreachable_patterns)] _ => panic!() }"
            mut, ref = "match x.as_mut().project() { SP::V { a, b } => (a, b), #[allow(unreachable_patterns)] _ => panic!(\"variant\") }", "match x.as_ref().project_ref() { SR::V { a, b } => (a, b), #[allow(unreachable_patterns)] _ => panic!(\"variant\") }"
        else:
            addr = f"(&x.{f[0]} as *const A as usize, &x.{f[1]} as *const B as usize)"
            mut, ref = f"{{ let p = x.as_mut().project(); (p.{f[0]}, p.{f[1]}) }}", f"{{ let p = x.as_ref().project_ref(); (p.{f[0]}, p.{f[1]}) }}"
        ty = lambda m, t, p: f"Pin<&{m}{t}>" if p else f"&{m}{t}"
        get = lambda v, p: f"&*{v}"
        body = ("mcrt::reset(); let mut x = Box::pin(mk::<A, B>(1)); let at = " + addr + ";\n"
                f" {{ let (a, b): ({ty('', 'A', pins[0])}, {ty('', 'B', pins[1])}) = {ref}; if (&*a as *const A as usize, &*b as *const B as usize) != at {{ return Err(\"project_ref address\".into()) }} if !a.is(1) || !b.is(2) {{ return Err(\"project_ref value\".into()) }} }}\n"
                f" {{ let (a, b): ({ty('mut ', 'A', pins[0])}, {ty('mut ', 'B', pins[1])}) = {mut}; if (&*a as *const A as usize, &*b as *const B as usize) != at {{ return Err(\"project address\".into()) }} if !a.is(1) || !b.is(2) {{ return Err(\"project value\".into()) }} }}\n"
                " if !mcrt::take_log().is_empty() { return Err(\"projecting dropped something\".into()) }\n")
        for w in (0, 1):
            body += f" {{ #[allow(unused_mut, unused_variables)] let (mut a, mut b): ({ty('mut ', 'A', pins[0])}, {ty('mut ', 'B', pins[1])}) = {mut}; "
            v, t, k = ("a", "A", 4) if w == 0 else ("b", "B", 5)
            body += (f"{v}.set({t}::mk({k}));" if pins[w] else f"*{v} = {t}::mk({k});") + " }\n"
            body += f" {{ let (a, b) = {ref}; if !a.is(4) || !b.is({5 if w else 2}) {{ return Err(\"write through entry {w}\".into()) }} }}\n"
        body += " drop(x); if !mcrt::live().is_empty() { return Err(\"leak\".into()) } Ok(1)"
        out.append(Prog(PRE + item(form, pins, []) + MK % CTOR[form] + GO % body, tag=f"kinds/{form}"))
    return out
