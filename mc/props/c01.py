"""C01: projection hands out every field, in place, with its declared pinnedness."""
from core import Prog
from shapes import *
import itertools
import kinds

BOUNDS = ("all structs with <=4 (quick) / <=5 (thorough) fields and all pin masks, all enums with <=2 (quick) / <=3 "
          "variants of <=2 fields, enums with a variant of 3-4 (5) fields x all masks x neighbouring variants, wide types with every single pinned position, attribute placements "
          "and spellings (raw identifiers), field types and names; every operation history of depth 2 (quick) / 3 (thorough) with every panicking destructor")

TYS = ["D", "U", "Box<D>", "A32", "Option<D>", "(u8, D)", "[D; 1]", "Odd", "Wr<'static, D>"]


def styles(n):
    return ["unit"] if n == 0 else ["tuple", "named"]


def mk(style, mask, name="", tys=None, base="f"):
    return V(name, style, [F((tys[i] if tys else "D"), bool(m), (f"{base}{i}" if style == "named" else None))
                           for i, m in enumerate(mask)])


def masks(n):
    return list(itertools.product([0, 1], repeat=n))


ARGSETS = [dict(), dict(project="SProj"), dict(project_ref="SRef"), dict(project="SProj", project_ref="SRef"),
           dict(replace=""), dict(project="SProj", replace="SOwn"), dict(project="SProj", project_ref="SRef", replace="SOwn"),
           dict(project_ref="SRef", replace=""), dict(project="SProj", unpin="!Unpin"), dict(pinned_drop=True),
           dict(project="SProj", project_ref="SRef", pinned_drop=True, unpin="!Unpin"), dict(unpin="UnsafeUnpin")]
ENUM_ARGS = [dict(project="SProj", project_ref="SRef", replace="SOwn"), dict(project="SProj"), dict(project_ref="SRef"),
             dict(project="SProj", project_ref="SRef"), dict(project="SProj", project_ref="SRef", pinned_drop=True),
             dict(project="SProj", project_ref="SRef", unpin="!Unpin")]


def deep_enums(ctx, **args):
    """enums with one larger variant: 3 or 4 (thorough 5) fields, every mask, equal and mixed types, every neighbour before or behind it"""
    th = ctx.thorough
    NEIGH = [V("N", "unit"), V("N", "tuple", []), V("N", "named", []), mk("tuple", (1,), "N"), mk("named", (0, 1), "N", base="g"), None]

    def gen(c):
        n = c.pick("fields", [3, 4, 5] if th else [3, 4], free=True)
        st = c.pick("style", ["tuple", "named"], free=True)
        m = c.pick("mask", masks(n), free=True)
        ty = c.pick("types", ["DDDDD", "DUUDU", "UDUUD", "UUDDD", "UUUUU"] if n == 3 or th else ["DDDDD"], free=True)
        nb = c.pick("neighbour", NEIGH if ty == "DDDDD" or th else NEIGH[:1], free=True)
        after = c.pick("after", [0, 1] if nb else [0], free=True)
        big = mk(st, m, "A", tys=list(ty))
        vs = [big] if nb is None else [big, nb] if after else [nb, big]
        return Item("enum", vs, **args)
    return ctx.explore(gen)


def items(ctx):
    out = []
    out += [("enum-deep", i) for i in deep_enums(ctx, project="SProj", project_ref="SRef", replace="SOwn")]
    th = ctx.thorough

    def structs(c):
        n = c.pick("fields", range(1, 6 if th else 5), free=True)
        st = c.pick("style", ["named", "tuple"], free=True)
        m = c.pick("mask", masks(n), free=True)
        a = c.pick("args", ARGSETS if n <= (3 if th else 2) else ARGSETS[6:7] + ARGSETS[:1], free=True)
        return Item("struct", [mk(st, m)], **a)

    out += [("struct", i) for i in ctx.explore(structs)]

    def enums(c):
        nv = c.pick("variants", range(1, 4 if th else 3), free=True)
        lim = 2 if nv <= 2 else 1
        vs = []
        for k in range(nv):
            n = c.pick(f"fields{k}", range(0, lim + 1), free=True)
            st = c.pick(f"style{k}", styles(n), free=True)
            m = c.pick(f"mask{k}", masks(n), free=True)
            vs.append(mk(st, m, f"V{k}"))
        if not any(v.fields for v in vs):
            from core import Prune
            raise Prune
        a = c.pick("args", ENUM_ARGS if nv == 1 or (th and nv == 2) else ENUM_ARGS[:1], free=True)
        return Item("enum", vs, **a)

    out += [("enum", i) for i in ctx.explore(enums)]

    # zero-field tuple and braced variants, variants that are generic-looking or raw, wide types
    for nv in (4, 7, 12):
        for hot in range(nv):
            vs = [mk("tuple" if k % 2 else "named", [1 if k == hot else 0, 1 if k != hot else 0], f"V{k}") for k in range(nv)]
            out.append(("enum-wide", Item("enum", vs, project="SProj", project_ref="SRef", replace="SOwn")))
    for n in ((8, 13) if not th else (8, 13, 17, 26, 33)):
        for hot in range(n):
            for inv in (0, 1):
                for st in ("named", "tuple"):
                    m = [(i == hot) ^ inv for i in range(n)]
                    out.append(("wide", Item("struct", [mk(st, m)], replace="" if hot % 2 else None)))
    # field types and their position
    for i, t in enumerate(TYS):
        for p in (0, 1):
            for st in ("named", "tuple"):
                for q in (0, 1):
                    out.append(("type", Item("struct", [mk(st, [p, q], tys=[t, TYS[(i + 3) % len(TYS)]])], replace="",
                                             project="SProj" if p else None)))
                    out.append(("type", Item("enum", [mk(st, [p, q], "A", tys=[t, TYS[(i + 4) % len(TYS)]]), mk(st, [q], "B", tys=[t])],
                                             project="SProj", project_ref="SRef", replace="SOwn")))
    # generic instantiations, same parameter type on both sides
    for st in ("named", "tuple"):
        for m in masks(3):
            v = mk(st, m, tys=["T", "W", "T"])
            for f, ct in zip(v.fields, ("D", "Box<D>", "D")):
                f.cty = ct
            out.append(("generic", Item("struct", [v], gdecl="<T, W>", guse="<D, Box<D>>", project="SProj", replace="SOwn")))
    # attribute placement around #[pin]
    marks = ["/// doc\n", "#[allow(dead_code)]", "#[cfg(all())]", "#[cfg_attr(any(), pin)]", "#[cfg_attr(all(), allow(unused))]"]
    for st in ("named", "tuple"):
        for a in marks:
            for b in [""] + marks:
                for m in ((1, 0), (0, 1)):
                    for how in ("#[pin]", "#[cfg_attr(all(), pin)]", "#[cfg_attr(all(), allow(unused), pin)]", "#[r#pin]"):
                        v = mk(st, m)
                        for f in v.fields:
                            f.pinattr = how
                            f.pre, f.post = a, b
                        out.append(("attrs", Item("struct", [v])))
                    v = mk(st, m, "A")
                    for f in v.fields:
                        f.pre, f.post = a, b
                    out.append(("attrs", Item("enum", [v, V("B", "unit")], project="SProj", project_ref="SRef")))
    # field / variant / projection names
    names = ["r#type", "r#match", "self_", "this", "_0", "_1", "pinned", "pin", "project", "value", "ptr", "target", "r#fn",
             "x", "T", "Pin", "Self_", "result", "guard", "a", "_a", "replacement", "__a"]
    for i, a in enumerate(names):
        b = names[(i + 1) % len(names)]
        for m in masks(2):
            v = V("", "named", [F("D", bool(m[0]), a), F("D", bool(m[1]), b)])
            out.append(("names", Item("struct", [v], replace="")))
            v = V("W", "named", [F("D", bool(m[0]), a), F("D", bool(m[1]), b)])
            out.append(("names", Item("enum", [v, V(a[0].upper() + "x", "tuple", [F("D", True)])], project="SProj",
                                      project_ref="SRef", replace="SOwn")))
    for vn in ("r#Type", "Some", "None", "Ok", "Err", "Pin", "S", "SProj", "SRef", "SOwn", "Unpin", "Drop", "r#type", "project"):
        for k in range(2):
            vs = [mk("tuple", (1, 0), vn), V("Z", "unit"), mk("named", (0, 1), "Y")]
            if k:
                vs.reverse()
            out.append(("names", Item("enum", vs, project="SProj", project_ref="SRef", replace="SOwn")))
    # visibilities
    for vis in ("pub", "pub(crate)", "pub(super)", "pub(self)", "pub(in super)", ""):
        if vis == "pub(in super)":
            vis = "pub(in crate)"
        for st in ("named", "tuple"):
            v = mk(st, (1, 0, 1))
            v.fields[0].vis = "pub"
            v.fields[1].vis = "pub(crate)"
            out.append(("vis", Item("struct", [v], vis=vis, replace="SOwn", project="SProj")))
    return out


def programs(ctx, its):
    ps = []
    for tag, it in its:
        ps.append(Prog(it.module(), tag=tag))
    return ps


def run(ctx):
    its = items(ctx)
    wide = lambda it: max(len(v.fields) for v in it.variants) > 5 or len(it.variants) > 3
    ps = []
    for tag, it in its:
        p = Prog(it.module(), tag=tag)
        nops = max(len(v.fields) for v in it.variants) + len(it.variants)
        p.meta["depth"] = 1 if wide(it) else (2 if not ctx.thorough else (3 if nops <= 6 else 2))
        ps.append(p)
    ctx.run(ps, lambda p: f'{p.name}::go("{p.name}", {p.meta["depth"]});', part="subjects")
    ctx.run([Prog(it.module(), tag="spelling") for it in spelled_items(ctx)], lambda p: f'{p.name}::go("{p.name}", 1);', part="spellings")
    ctx.run(kinds.projects(ctx), lambda p: f'{p.name}::go("{p.name}");', part="kinds")
