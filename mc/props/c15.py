"""C15: behaviour is decided by the item as it is after cfg and attribute macros."""
from core import Prog, Prune
from shapes import *
import core, itertools

BOUNDS = ("all structs of <=3 and enums of <=2 variants x <=2 fields where every field/variant is independently kept, kept by a true cfg or removed by a false one, and every "
          "`#[pin]` is absent, direct, supplied or withheld by cfg_attr; pairs of cooperating attribute macros before/after; the resulting item is "
          "explored (all histories of depth 1-2, exact types, Unpin) and compared with the reference; everything-removed and marker-removed cases")
ASSUMPTIONS = ["attribute macros that deliberately re-emit themselves behind the internal derive are outside the property"]
LIVE = ["", "#[cfg(all())]", "#[cfg(not(any()))]", "#[cfg_attr(all(), cfg(all()))]", "#[cfg_attr(any(), cfg(any()))]"]
DEAD = ["#[cfg(any())]", "#[cfg_attr(all(), cfg(any()))]", "#[cfg(all())] #[cfg(any())]"]
PIN1 = ["#[pin]", "#[cfg_attr(all(), pin)]", "#[cfg_attr(not(any()), allow(unused), pin)]"]
PIN0 = ["", "#[cfg_attr(any(), pin)]", "#[cfg_attr(not(all()), pin, pin)]"]


def slot(c, i, th, small):
    """-> (text attributes, alive, pinned)"""
    if small == 2:
        t, alive, pin = c.pick(f"slot{i}", [("", True, False), ("#[pin]", True, True), ("#[cfg(any())]", False, False), ("#[pin] #[cfg(any())]", False, True)] + ([("#[cfg_attr(all(), pin)] #[cfg(all())]", True, True)] if th else []), free=True)
        return t, alive, pin
    cf = c.pick(f"cfg{i}", ([(x, True) for x in LIVE] + [(x, False) for x in DEAD]) if not small else [(LIVE[0], True), (LIVE[1], True), (DEAD[0], False)], free=True)
    pn = c.pick(f"pin{i}", ([(x, True) for x in PIN1] + [(x, False) for x in PIN0]) if not small else [(PIN0[0], False), (PIN1[0], True), (PIN1[1], True), (PIN0[1], False)], free=True)
    after = c.pick(f"order{i}", [False, True], free=True) if not small else str(i)[-1] in "13"
    a = [cf[0], pn[0]]
    if after:
        a.reverse()
    return " ".join(x for x in a if x), cf[1], pn[1]


def finish(full, res, tag, args):
    """full: declaration text incl. removed parts; res: resulting Item"""
    pinned = [f for v in res.variants for f in v.fields if f.pin]
    unpin = all(f.ty == "U" for f in pinned)
    src = "use mcrt::{self, A32, D, Odd, U, Wr};\n" + full + res.subject()
    src += f"const _: () = assert!(mcrt::is_unpin!(S) == {str(unpin).lower()});\n"
    src += "pub fn go(n: &str, d: usize) { mcrt::explore::<S>(n, d, true) }\n"
    p = Prog(src, tag=tag)
    p.meta["depth"] = 2
    return p


def run(ctx):
    th = ctx.thorough
    runs, errs = [], []
    SARGS = dict(replace="")
    EARGS = dict(project="SProj", project_ref="SRef", replace="SOwn")

    def structs(c):
        n = c.pick("n", [1, 2, 3], free=True)
        st = c.pick("style", ["named", "tuple"], free=True)
        txt, live = [], []
        for i in range(n):
            a, alive, pin = slot(c, i, th, (0 if n == 1 else 1 if n == 2 else 2) if not th else (0 if n == 1 else 1))
            ty = ("D", "U")[(i + n) % 2] if n > 1 else c.pick("ty", ["D", "U"], free=True)
            nm = f"f{i}: " if st == "named" else ""
            txt.append(f"{a} {nm}{ty if alive else 'NoSuchType<' + chr(39) + 'x>'}")
            if alive:
                live.append(F(ty, pin, f"f{i}" if st == "named" else None))
        attr = "#[pin_project::pin_project(project_replace)] "
        full = attr + (f"struct S {{ {', '.join(txt)} }}\n" if st == "named" else f"struct S({', '.join(txt)});\n")
        if not live:
            return Prog(full, "err", "struct-empty")
        return finish(full, Item("struct", [V("", st, live)], **SARGS), "struct", SARGS)

    def enums(c):
        nv = c.pick("nv", [1, 2] if not th else [1, 2, 3], free=True)
        txt, vs = [], []
        for k in range(nv):
            vc = c.pick(f"vcfg{k}", [("", True), (DEAD[0], False), (LIVE[1], True)] if nv > 1 else [(x, True) for x in LIVE] + [(x, False) for x in DEAD], free=True)
            n = c.pick(f"n{k}", [0, 1, 2] if nv < 2 or (nv < 3 and k == 0) else [0, 1], free=True)
            st = ("tuple", "named")[k % 2] if n else "unit"
            ft, live = [], []
            for i in range(n):
                a, alive, pin = slot(c, f"{k}.{i}", th, 1 if nv == 1 else 2)
                ty = ("D", "U")[(i + k) % 2]
                nm = f"f{i}: " if st == "named" else ""
                ft.append(f"{a} {nm}{ty if alive else 'NoSuchType'}")
                if alive:
                    live.append(F(ty, pin, f"f{i}" if st == "named" else None))
            body = {"unit": "", "tuple": f"({', '.join(ft)})", "named": f" {{ {', '.join(ft)} }}"}[st]
            txt.append(f"{vc[0]} V{k}{body}")
            if vc[1]:
                vs.append(V(f"V{k}", st, live))
        full = "#[pin_project::pin_project(project = SProj, project_ref = SRef, project_replace = SOwn)] enum S { " + ", ".join(txt) + " }\n"
        if not any(v.fields for v in vs):
            return Prog(full, "err", "enum-empty")
        return finish(full, Item("enum", vs, **EARGS), "enum", EARGS)

    allp = ctx.explore(structs) + ctx.explore(enums)

    # ---- cooperating macros; `$B` before and `$P` after the attribute
    MAC = [("strip", "auxmac::strip_fields(pin)"), ("mark", "auxmac::mark_first(pin)"), ("addpin", None), ("addplain", None), ("id", "auxmac::identity"), ("none", "")]

    def macros(c):
        st = c.pick("style", ["named", "tuple"], free=True)
        mask = c.pick("mask", list(itertools.product((0, 1), repeat=2)), free=True)
        seq = []
        for where in ("before", "after", "after2"):
            seq.append((where, c.pick(where, [m[0] for m in MAC][::-1], free=True)))
        fields = [F("D", bool(m), f"f{i}" if st == "named" else None) for i, m in enumerate(mask)]
        # expansion order: before, then after, after2 (all before the derive)
        added = 0
        marked = 0
        txt = {"before": "", "after": "", "after2": ""}
        fs = list(fields)
        dup = False
        state = [[f.ty, f.pin, f.name] for f in fs]
        for where, m in seq:
            if m == "strip":
                for s in state:
                    s[1] = 0
                txt[where] = "#[auxmac::strip_fields(pin)] "
            elif m == "mark":
                state[0][1] = int(state[0][1]) + 1
                txt[where] = "#[auxmac::mark_first(pin)] "
            elif m in ("addpin", "addplain"):
                nm = f"g{added}" if st == "named" else None
                added += 1
                state.append(["U", int(m == "addpin"), nm])
                t = ("#[pin] " if m == "addpin" else "") + (f"{nm}: U," if nm else "U,")
                txt[where] = f"#[auxmac::add_to_body({t})] "
            elif m == "id":
                txt[where] = "#[auxmac::identity] "
        body = (lambda b: f"struct S {{ {b} }}\n" if st == "named" else f"struct S({b});\n")("".join(f"{'#[pin] ' if f.pin else ''}{(f.name + ': ') if f.name else ''}{f.ty}, " for f in fs))
        full = txt["before"] + "#[pin_project::pin_project(project_replace)] " + txt["after"] + txt["after2"] + body
        if any(s[1] > 1 for s in state):
            return Prog("use mcrt::{D, U};\n" + full, "err", "macro-duplicate")
        if len(state) > 4:
            raise Prune
        return finish(full, Item("struct", [V("", st, [F(s[0], bool(s[1]), s[2]) for s in state])], **SARGS), "macro", SARGS)
    allp += ctx.explore(macros)

    # enums and macros
    for where in ("before", "after"):
        for m, t in (("addvar", "#[auxmac::add_to_body(Z(#[pin] D, U),)] "), ("addunit", "#[auxmac::add_to_body(Z,)] ")):
            for mask in itertools.product((0, 1), repeat=2):
                vs = [V("A", "tuple", [F("D", bool(mask[0])), F("U", bool(mask[1]))])] + ([V("Z", "tuple", [F("D", True), F("U")])] if m == "addvar" else [V("Z", "unit")])
                p = "#[pin_project::pin_project(project = SProj, project_ref = SRef, project_replace = SOwn)] "
                full = (t + p if where == "before" else p + t) + f"enum S {{ A({'#[pin] ' if mask[0] else ''}D, {'#[pin] ' if mask[1] else ''}U), }}\n"
                allp.append(finish(full, Item("enum", vs, **EARGS), "macro-enum", EARGS))
    # macro_rules with optional repetition, and nested cfg from macro arguments
    for mask in itertools.product((0, 1), repeat=3):
        fs = [F(("D", "U", "D")[i], bool(m), f"f{i}") for i, m in enumerate(mask)]
        body = ", ".join(f"{'[pin] ' if f.pin else ''}{f.name}: {f.ty}" for f in fs)
        mac = "macro_rules! mk { ($($([$p:ident])? $n:ident : $t:ty),*) => { #[pin_project::pin_project(project_replace)] struct S { $( $(#[$p])? $n: $t ),* } } }\n"
        allp.append(finish(mac + f"mk! {{ {body} }}\n", Item("struct", [V("", "named", fs)], **SARGS), "macro_rules", SARGS))
        mac = "macro_rules! mk { ($($(#[$p:meta])* $n:ident : $t:ty),*) => { #[pin_project::pin_project(project_replace)] struct S { $( $(#[$p])* $n: $t ),* } } }\n"
        body = ", ".join(f"{'#[cfg_attr(all(), pin)] ' if f.pin else '#[cfg(all())] '}{f.name}: {f.ty}" for f in fs)
        allp.append(finish(mac + f"mk! {{ {body}, #[cfg(any())] dead: Nope }}\n", Item("struct", [V("", "named", fs)], **SARGS), "macro_rules-meta", SARGS))
    ctx.run([p for p in allp if p.expect == "ok"], lambda p: f'{p.name}::go("{p.name}", {p.meta["depth"]});', part="explored", chunk=80)
    neg = [p for p in allp if p.expect == "err"]

    # ---- the attribute itself under cfg, its marker removed, the whole item removed
    P = "use core::pin::Pin; use core::marker::PhantomPinned; use pin_project::{pin_project, pinned_drop};\n"
    for d in ("struct S<T> { #[pin] f: T, g: u8 }", "struct S<T>(#[pin] T);", "enum S<T> { A(#[pin] T), B }"):
        for a in ("#[pin_project]", "#[pin_project(!Unpin)]", "#[cfg_attr(all(), pin_project)]", "#[pin_project(project = SP)]"):
            for strip in ("pin", "derive"):
                neg.append(Prog(P + f"{a} #[auxmac::strip_item({strip})] {d}\n", "err", f"strip-{strip}"))
                neg.append(Prog(P + f"{a} #[allow(unused)] #[auxmac::strip_item({strip})] {d}\n", "err", f"strip-{strip}"))
            neg.append(Prog(P + f"#[auxmac::strip_item(pin)] {a} {d}\n", "ok", "strip-nothing"))
            neg.append(Prog(P + f"{a} #[auxmac::identity] {d}\n", "ok", "control"))
            neg.append(Prog(P + f"#[cfg(any())] {a} {d}\n struct S;\n", "ok", "item-removed"))
            neg.append(Prog(P + f"{a} #[cfg(any())] {d}\n struct S;\n", "ok", "item-removed"))
            neg.append(Prog(P + f"#[cfg(all())] {a} {d}\n const _: () = assert!(!mcrt::is_unpin!(S<PhantomPinned>));\n", "ok", "item-kept"))
        for x in ("pin", "pin(foo)", "pin()", "pin = \"x\""):
            neg.append(Prog(P + f"#[pin_project] #[auxmac::append_attr({x})] {d}\n", "err", "second-marker"))
            neg.append(Prog(P + f"#[auxmac::append_attr({x})] #[pin_project] {d}\n", "err", "second-marker"))
            neg.append(Prog(P + f"#[pin_project] #[auxmac::strip_item(pin)] #[auxmac::append_attr({x})] {d}\n", "err", "swapped-marker"))
        neg.append(Prog(P + f"#[cfg_attr(any(), pin_project)] {d}\n", "err", "attribute-withheld"))
        neg.append(Prog(P + f"#[cfg_attr(any(), pin_project)] {d.replace('#[pin] ', '')}\n", "ok", "attribute-withheld"))
    # removal by another macro
    neg.append(Prog(P + "#[pin_project] #[auxmac::add_to_body(x: u8)] struct S {}\n", "ok", "added-only"))
    neg.append(Prog(P + "#[pin_project] #[auxmac::identity] struct S {}\n", "err", "added-none"))
    neg.append(Prog(P + "#[auxmac::add_to_body(x: u8)] #[pin_project] struct S {}\n", "ok", "added-only"))
    neg.append(Prog(P + "#[pin_project] #[auxmac::add_to_body(#[cfg(any())] x: u8)] struct S {}\n", "err", "added-dead"))
    neg.append(Prog(P + "#[pin_project] #[auxmac::add_to_body(A = 1)] enum S { B(u8), }\n", "err", "added-discriminant"))
    neg.append(Prog(P + "#[pin_project] #[auxmac::add_to_body(#[pin] A)] enum S { B(u8), }\n", "err", "added-pin-on-variant"))
    neg.append(Prog(P + "#[pin_project] #[auxmac::add_to_body(A(#[pin] u8))] enum S { B(u8), }\n", "ok", "added-variant"))
    # cfg on discriminants, generics, pinned_drop
    neg.append(Prog(P + "#[pin_project] enum S { #[cfg(any())] A = 1, B(#[pin] u8) }\n", "ok", "dead-discriminant"))
    neg.append(Prog(P + "#[pin_project] enum S { #[cfg(any())] #[pin] A, B(#[pin] u8) }\n", "ok", "dead-marker"))
    neg.append(Prog(P + "#[pin_project] struct S { #[cfg(any())] #[pin] #[pin] a: Nope, b: u8 }\n", "ok", "dead-duplicate"))
    neg.append(Prog(P + "#[pin_project] struct S<T, #[cfg(any())] U> { #[pin] a: T }\n fn f(x: Pin<&mut S<u8>>) { x.project().a; }\n", "ok", "dead-param"))
    neg.append(Prog(P + "#[pin_project] struct S<#[cfg(all())] T> { #[pin] a: T }\n fn f(x: Pin<&mut S<u8>>) { x.project().a; }\n", "ok", "live-param"))
    for pd, ok in (("#[cfg(all())] #[pinned_drop]", True), ("#[cfg_attr(all(), pinned_drop)]", True), ("#[cfg(any())] #[pinned_drop]", False), ("#[pinned_drop] #[cfg(any())]", False), ("#[cfg_attr(any(), pinned_drop)]", False)):
        neg.append(Prog(P + "#[pin_project(PinnedDrop)] struct S<T>(#[pin] T);\n" + pd + " impl<T> PinnedDrop for S<T> { fn drop(self: Pin<&mut Self>) {} }\n", "ok" if ok else "err", "pinned_drop-cfg"))
    neg.append(Prog(P + "#[cfg_attr(all(), pin_project(PinnedDrop))] #[cfg_attr(any(), pin_project)] struct S<T>(#[pin] T);\n#[pinned_drop] impl<T> PinnedDrop for S<T> { fn drop(self: Pin<&mut Self>) {} }\n", "ok", "args-cfg"))
    neg.append(Prog(P + "#[cfg_attr(any(), pin_project(PinnedDrop))] #[cfg_attr(all(), pin_project)] struct S<T>(#[pin] T);\n#[pinned_drop] impl<T> PinnedDrop for S<T> { fn drop(self: Pin<&mut Self>) {} }\n", "err", "args-cfg"))
    ctx.judge(neg, part="programs")
