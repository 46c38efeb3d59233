"""C17: any generic parameter list, where clause, field type and naming is supported, with precisely the declared types.

Twin oracle: every enumerated item is first compiled without the attribute; the ones the compiler takes are the well-formed
items, and each of them must compile annotated, with client code that pins down every projected field type exactly."""
from core import Prog, Prune
import core, itertools, re

BOUNDS = ("all parameter lists of <=3 parameters from a 26-parameter alphabet (lifetimes, bounded/defaulted/unsized/HRTB types, consts), each with struct/tuple/enum bodies, "
          "every single where predicate of a 30-predicate alphabet (pairs: thorough), every field type of a 70-type alphabet pinned and not in every style, every name of a 60-name alphabet "
          "as type/field/variant/parameter/lifetime/projection name")
PRE = ("use core::marker::{PhantomData, PhantomPinned}; use core::pin::Pin; use pin_project::{pin_project, pinned_drop};\n"
       "pub trait Tr { type A; type B: ?Sized; } pub trait Gat { type G<'x> where Self: 'x; } pub struct Cb<const B: bool>; pub struct Cn<const N: usize>; pub struct Cc<const C: char>; pub struct Hold<'a, X: ?Sized>(&'a X); pub trait Rel<X: ?Sized> {}\n")

# decl, argument, field type that uses it, tail only?
PARAMS = [
    ("'a", "'a", "&'a u8", 0), ("'b: 'a", "'b", "&'b u8", 0), ("'pin", "'pin", "&'pin u8", 0), ("'pin_", "'pin_", "&'pin_ mut u8", 0), ("'c", "'c", "PhantomData<&'c ()>", 0), ("'a: 'static", "'a", "&'a str", 0),
    ("T", "T", "T", 0), ("T: Clone", "T", "T", 0), ("T: ?Sized", "T", "T", 1), ("T: 'static + Send", "T", "Option<T>", 0), ("T: Tr", "T", "T::A", 0), ("T: Tr", "T", "<T as Tr>::A", 0), ("T: for<'x> Fn(&'x u8) -> &'x u8", "T", "T", 0),
    ("T: Iterator<Item = u8>", "T", "T::Item", 0), ("T: Gat + 'static", "T", "T::G<'static>", 0), ("T: ?Sized + Tr", "T", "T::B", 1), ("T: 'a", "T", "&'a T", 0), ("T = u8", "T", "T", 0), ("T: Clone = String", "T", "Vec<T>", 0),
    ("U", "U", "U", 0), ("U: Rel<T>", "U", "U", 0), ("U: ?Sized", "U", "Box<U>", 0), ("U: Into<T>", "U", "*const U", 0), ("U = Vec<u8>", "U", "[U; 2]", 0),
    ("const N: usize", "N", "[u8; N]", 0), ("const B: bool", "B", "Cb<B>", 0), ("const C: char", "C", "Cc<C>", 0), ("const M: usize = 3", "M", "Cn<M>", 0), ("const M: usize = { 1 + 2 }", "M", "[u8; M]", 0),
]


def strip_default(decl):
    d = 0
    for i, ch in enumerate(decl):
        d += (ch in "<({[") - (ch in ")}]" or (ch == ">" and decl[i - 1] != "-"))
        if decl[i:i + 3] == " = " and d == 0:
            return decl[:i]
    return decl


def chk(kind, style, tys, mask, gdecl, guse, where, names=None, vn="V", nm="S", pm="SP", pr="SR", po=None, lt="'q"):
    """client code that pins down every projected field type"""
    names = names or [f"f{i}" for i in range(len(tys))]
    g = "<" + ", ".join(strip_default(d) for d in gdecl) + ">" if gdecl else ""
    u = "<" + ", ".join(guse) + ">" if guse else ""
    o = ""

    def body(fn, meth, path, pinf, unpf):
        recv = {"project": f"Pin<&{lt} mut {nm}{u}>", "project_ref": f"Pin<&{lt} {nm}{u}>"}[meth]
        ls = f"<{lt}" + (", " + ", ".join(strip_default(d) for d in gdecl) if gdecl else "") + ">"
        # bounds such as `'b: 'a` need the order of declaration, the extra lifetime first is fine
        gu = "<" + ", ".join([lt] + list(guse)) + ">"
        if kind == "struct" and path is None:
            s = f"pub fn {fn}{ls}(zs: {recv}) {where} {{ let zx = zs.{meth}(); "
            acc = lambda i: f"zx.{names[i] if style == 'named' else i}"
            s += " ".join(f"mcrt::{pinf if m else unpf}::<{t}, _>({acc(i)});" for i, (t, m) in enumerate(zip(tys, mask)))
            return s + " }\n"
        p = path if kind == "struct" else f"{path}::{vn}"
        pat = p + (" { " + ", ".join(f"{n}: zb{i}" for i, n in enumerate(names)) + " }" if style == "named" else "(" + ", ".join(f"zb{i}" for i in range(len(tys))) + ")")
        s = f"pub fn {fn}{ls}(zs: {recv}) -> {path}{gu} {where} {{ zs.{meth}() }}\n"
        s += f"pub fn {fn}_{ls}(zs: {path}{gu}) {where} {{ if let {pat} = zs {{ "
        s += " ".join(f"mcrt::{pinf if m else unpf}::<{t}, _>(zb{i});" for i, (t, m) in enumerate(zip(tys, mask)))
        return s + " } }\n"
    o += body("pm", "project", pm, "ty_pm", "ty_um")
    o += body("pr", "project_ref", pr, "ty_pr", "ty_ur")
    if po is not None:
        recv = f"Pin<&mut {nm}{u}>"
        if po == "":
            acc = lambda i: f"zx.{names[i] if style == 'named' else i}"
            o += f"pub fn po{g}(zs: {recv}, zn: {nm}{u}) {where} {{ let zx = zs.project_replace(zn); " + " ".join(f"mcrt::{'ty_own_p' if m else 'ty_own_u'}::<{t}, _>({acc(i)});" for i, (t, m) in enumerate(zip(tys, mask))) + " }\n"
        else:
            p = po if kind == "struct" else f"{po}::{vn}"
            pat = p + (" { " + ", ".join(f"{n}: zb{i}" for i, n in enumerate(names)) + " }" if style == "named" else "(" + ", ".join(f"zb{i}" for i in range(len(tys))) + ")")
            o += f"pub fn po{g}(zs: {recv}, zn: {nm}{u}) -> {po}{u} {where} {{ zs.project_replace(zn) }}\npub fn po_{g}(zs: {po}{u}) {where} {{ if let {pat} = zs {{ " + " ".join(f"mcrt::{'ty_own_p' if m else 'ty_own_u'}::<{t}, _>(zb{i});" for i, (t, m) in enumerate(zip(tys, mask))) + " } }\n"
    return o


def item(kind, style, tys, mask, gdecl, where, names=None, vn="V", nm="S"):
    names = names or [f"f{i}" for i in range(len(tys))]
    g = "<" + ", ".join(gdecl) + ">" if gdecl else ""
    w = " " + where if where else ""
    p = lambda m: "$p " if m else ""
    if style == "named":
        fs = ", ".join(f"{p(m)}pub {n}: {t}" if kind == "struct" else f"{p(m)}{n}: {t}" for n, t, m in zip(names, tys, mask))
    else:
        fs = ", ".join(f"{p(m)}pub {t}" if kind == "struct" else f"{p(m)}{t}" for t, m in zip(tys, mask))
    if kind == "struct":
        return f"pub struct {nm}{g}{w} {{ {fs} }}" if style == "named" else f"pub struct {nm}{g}({fs}){w};"
    return f"pub enum {nm}{g}{w} {{ Z, {vn}" + (f" {{ {fs} }}" if style == "named" else f"({fs})") + " }"


def pair(ctx, cases, part):
    """cases: (item with $p, args, client, tag)"""
    tw = {}
    for it, args, client, tag in cases:
        tw.setdefault(PRE + it.replace("$p ", "") + "\n", None)
    progs = [Prog(s, "ok", "twin") for s in tw]
    core.judge(ctx.deps(), progs, chunk=100, confirm_max=0)
    for p in progs:
        tw[p.src] = p.verdict
    ctx.part(part + ":ill-formed-items-discarded", sum(v == "err" for v in tw.values()))
    out = [Prog(PRE + f"#[pin_project{args}]\n" + it.replace("$p", "#[pin]") + "\n" + client, "ok", tag)
           for it, args, client, tag in cases if tw[PRE + it.replace("$p ", "") + "\n"] == "ok"]
    if len(out) * 5 < len(cases) * 2:
        raise core.EngineError(f"{part}: most items are ill-formed ({len(out)} of {len(cases)})")
    ctx.judge(out, part=part, chunk=60)


def run(ctx):
    th = ctx.thorough
    KS = [("struct", "named"), ("struct", "tuple"), ("enum", "named"), ("enum", "tuple")]

    def mkargs(kind, mode):
        """-> argument list, pm, pr, po"""
        if mode == 0 and kind == "struct":
            return "", None, None, None
        if mode == 1:
            return "(project = SP, project_ref = SR)", "SP", "SR", None
        if mode == 2:
            return "(project = SP, project_ref = SR, project_replace = SO)", "SP", "SR", "SO"
        if mode == 3 and kind == "struct":
            return "(project_replace)", None, None, ""
        raise Prune

    # ---- parameter lists
    def params(c):
        n = c.pick("n", [1, 2, 3] if th else [1, 2, 3], free=True)
        ps = [c.pick(f"p{i}", PARAMS, free=True) for i in range(n)]
        if len({p[1] for p in ps}) < n:
            raise Prune
        lts = [p[1].startswith("'") for p in ps]
        if lts != sorted(lts, reverse=True):
            raise Prune
        kind, st = c.pick("kind", KS if n < 3 else [KS[0]] if not th else KS[:3:2], free=True)
        mode = c.pick("mode", [0, 1, 2, 3] if n < 2 else ([1, 2] if n < 3 else [2]), free=True)
        tail = [p for p in ps if p[3]]
        if len(tail) > 1 or (tail and kind == "enum"):
            raise Prune
        if tail and mode in (2, 3):
            if n < 3:
                raise Prune
            mode = 1
        args, pm, pr, po = mkargs(kind, mode)
        order = [p for p in ps if not p[3]] + tail
        mi = c.pick("mask", ([0, 1] if n < 3 else [0]), free=True)
        mask = [(i + mi) % 2 == 0 for i in range(n)]
        # defaults must come last, references to other parameters must be declared
        names = {p[1] for p in ps}
        for p in ps:
            for dep in ("'a", "T"):
                if p[1] != dep and re.search(re.escape(dep) + r"\b", p[0] + p[2]) and dep not in names and not p[0].startswith(dep):
                    raise Prune
        dflt = [" = " in p[0] and "Item" not in p[0] for p in ps if not p[1].startswith("'")]
        if dflt != sorted(dflt):
            raise Prune
        g = [p[0] for p in ps]
        # a bound mentioned as a default argument needs the bound repeated
        w = ""
        return (item(kind, st, [p[2] for p in order], mask, g, w), args,
                chk(kind, st, [p[2] for p in order], mask, g, [p[1] for p in ps], w, pm=pm, pr=pr, po=po), "params/" + ", ".join(g))
    pair(ctx, ctx.explore(params), "params")

    # ---- numbers of parameters, fields, variants and predicates
    COUNTS = [3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 16, 17, 20, 26, 27, 32, 33] + ([7, 14, 15, 24, 25, 31, 64, 65, 100, 128, 129, 256, 257] if th else [65])

    def counts(c):
        n = c.pick("n", COUNTS, free=True)
        what = c.pick("what", ["lifetimes", "types", "consts", "mixed", "fields", "preds", "bounds", "tuple-type", "variants", "nesting"], free=True)
        kind, st = c.pick("kind", KS, free=True)
        mode = c.pick("mode", [0, 2, 3], free=True)
        args, pm, pr, po = mkargs(kind, mode)
        m = c.pick("mask", ["first", "last", "all", "none", "odd"], free=True)
        if n > 33 and (m in ("none", "odd") or what == "nesting"):
            raise Prune
        if not th and n > 13 and what not in ("lifetimes", "types", "consts", "fields") and (mode == 0 or m in ("none", "odd")):
            raise Prune
        R = range(n)
        gd, gu, tys, w = ["T"], ["T"], ["T", "u8"], ""
        if what == "lifetimes":
            gd = gu = [f"'l{i}" for i in R]
            tys = [f"&'l{i} u8" for i in R]
        elif what == "types":
            gd = gu = [f"T{i}" for i in R]
            tys = [f"T{i}" for i in R]
        elif what == "consts":
            gd, gu, tys = [f"const N{i}: usize" for i in R], [f"N{i}" for i in R], [f"[u8; N{i}]" for i in R]
        elif what == "mixed":
            gd = [f"'l{i}" for i in R] + [f"T{i}" for i in R] + [f"const N{i}: usize" for i in R]
            gu = [f"'l{i}" for i in R] + [f"T{i}" for i in R] + [f"N{i}" for i in R]
            tys = [f"(PhantomData<&'l{i} ()>, T{i}, [u8; N{i}])" for i in R]
        elif what == "fields":
            tys = ["T" if i % 2 else f"[u8; {i}]" for i in R] + ["T"]
        elif what == "preds":
            w = "where " + ", ".join(f"[T; {i}]: Sized" for i in R)
        elif what == "bounds":
            gd = ["T: " + " + ".join(f"Rel<[u8; {i}]>" for i in R)]
        elif what == "tuple-type":
            tys = ["(" + ", ".join("T" if i % 3 else f"[u8; {i}]" for i in R) + ")", "u8"]
        elif what == "nesting":
            tys = ["Option<" * n + "T" + ">" * n, "u8"]
        mask = {"first": [i == 0 for i in range(len(tys))], "last": [i == len(tys) - 1 for i in range(len(tys))], "all": [1] * len(tys), "none": [0] * len(tys), "odd": [i % 2 for i in range(len(tys))]}[m]
        vn = "V"
        it = item(kind, st, tys, mask, gd, w)
        if what == "variants":
            if kind != "enum":
                raise Prune
            # V is the last of many variants
            it = it.replace("{ Z, V", "{ Z, " + "".join(f"X{i}({'$p T' if i % 2 else 'u8, $p [T; 2]'}), " for i in R) + "V", 1)
        return it, args, chk(kind, st, tys, mask, gd, gu, w, pm=pm, pr=pr, po=po, lt="'q0"), f"counts/{what}/{n}"
    pair(ctx, ctx.explore(counts), "counts")

    # ---- lifetime names around the one the macro introduces, in every position that binds a lifetime
    LTS = ["'pin", "'pin_", "'pin__", "'pin___", "'pin____", "'pin_____", "'pin_a", "'pina", "'pin1", "'pinned", "'pi", "'p", "'_pin", "'_p", "'Pin", "'PIN", "'q_", "'unpin", "'_pin_"]
    # position of the second lifetime: declaration, field type, where clause
    SITES = [("param", "$L", "&$L T", ""), ("where-hrtb", None, "T", "where for<$L> &$L T: Rel<u8>"), ("bound-hrtb", None, "T", "where T: for<$L> Rel<&$L u8>"), ("fn-ptr", None, "for<$L> fn(&$L T) -> &$L u8", ""), ("dyn", None, "Box<dyn for<$L> Fn(&$L T) -> &$L T>", ""),
             ("outlives", "$L: $K", "&$L &$K T", ""), ("bound", None, "T", "where T: $K"), ("two-hrtb", None, "for<$L, 'pin__x> fn(&$L T, &'pin__x u8) -> &'pin__x u8", ""), ("type-bound", None, "Box<dyn Send + $K>", "")]

    def lifetimes(c):
        kind, st = c.pick("kind", KS, free=True)
        mode = c.pick("mode", [1, 2] if th else [2], free=True)
        K = c.pick("first", LTS, free=True)
        L = c.pick("second", LTS, free=True)
        tag, decl, ty, w = c.pick("site", SITES, free=True)
        if K == L or (not th and (kind, st) in (KS[1], KS[2]) and LTS.index(L) > 6):
            raise Prune
        s = lambda x: x.replace("$L", L).replace("$K", K)
        g = [K] + ([s(decl)] if decl else []) + ["T: 'static"]
        gu = [K] + ([L] if decl else []) + ["T"]
        args, pm, pr, po = mkargs(kind, mode)
        tys = [f"&{K} u8", s(ty)]
        mask = c.pick("mask", [[1, 0], [0, 1]], free=True)
        return (item(kind, st, tys, mask, g, s(w)), args, chk(kind, st, tys, mask, g, gu, s(w), pm=pm, pr=pr, po=po, lt="'qq"), f"lifetimes/{tag}/{K}/{L}")
    pair(ctx, ctx.explore(lifetimes), "lifetimes")

    # ---- where clauses
    PREDS = ["T: Clone", "T: Tr", "T: 'a", "'b: 'a", "Self: Sized", "Self: Rel<T>", "T: Rel<Self>", "T: Rel<S<'a, 'b, T, U, N>>", "Vec<T>: Clone", "for<'x> &'x T: Rel<u8>", "for<'x> T: Fn(&'x u8)", "T: for<'x> Rel<&'x u8>", "for<'x, 'y> fn(&'x T, &'y U): Clone", "[u8; N]: Clone", "[T; N]: Sized", "T: Rel<[u8; N]>", "U: Rel<dyn Fn(&T) -> U>", "(T, U): Send",
             "T: Tr<A = U>", "U: Rel<<T as Rel2>::X>, T: Rel2", "T: ?Sized", "T:", "T: Clone + Send + 'static", "u8: Copy", "&'a T: Sized", "T: Rel<Box<Self>>", "Option<Self>: Rel<T>", "Self: 'a", "dyn Rel<T>: Rel<U>", "T: for<'pin> Rel<&'pin u8>", "for<'pin> &'pin T: Rel<u8>", "for<'pin_, 'pin> (&'pin T, &'pin_ U): Rel<u8>", "*const Self: Rel<()>", "T: Rel<fn(Self)>", "T: Rel<fn(&Self) -> &U>", "PhantomData<Self>: Clone", "T: Rel<<Self as Rel3>::Y>, Self: Rel3"]
    G = ["'a", "'b", "T", "U: 'a", "const N: usize"]
    GU = ["'a", "'b", "T", "U", "N"]
    T0 = ["T", "&'a U", "&'b [u8; N]", "U"]
    EX = " pub trait Rel2 { type X; } pub trait Rel3 { type Y; } "

    def wheres(c):
        k = c.pick("preds", [1, 2] if th else [1, 2], free=True)
        i = c.pick("p0", range(len(PREDS)), free=True)
        sel = [i]
        if k == 2:
            j = c.pick("p1", range(len(PREDS)), free=True)
            if j <= i or (not th and (i + j) % 4) or any("fn(&Self) -> &" in PREDS[x] for x in (i, j)):
                raise Prune
            sel.append(j)
        kind, st = c.pick("kind", KS if k == 1 else [KS[0], KS[3]] if th else [KS[0]], free=True)
        mode = c.pick("mode", [0, 1, 2, 3] if k == 1 else [2], free=True)
        tc = c.pick("trailing", ["", ","] if k == 1 else [""], free=True)
        inline = c.pick("inline", [0, 1] if k == 1 else [0], free=True)
        args, pm, pr, po = mkargs(kind, mode)
        g = list(G)
        if inline:
            p = PREDS[sel[0]]
            m = re.fullmatch(r"(T|U|'b): (.+)", p)
            if not m or "," in re.sub(r"<.*>", "", p):
                raise Prune
            g[{"T": 2, "U": 3, "'b": 1}[m.group(1)]] = p + (" + 'a" if m.group(1) == "U" else "")
            w = ""
        else:
            w = "where " + ", ".join(PREDS[x] for x in sel) + tc
        it = item(kind, st, T0, [1, 0, 1, 0], g, w)
        # outside of the item `Self` is spelled out
        full = "S<'a, 'b, T, U, N>"
        sub = lambda x: re.sub(r"\bSelf\b", full, x)
        return (EX + it, args, chk(kind, st, T0, [1, 0, 1, 0], [sub(x) for x in g], GU, sub(w), pm=pm, pr=pr, po=po), "where/" + (w or g[2] + g[3] + g[1]))
    cases = [(it, a, cl, t) for it, a, cl, t in ctx.explore(wheres)]
    pre2 = EX
    # helper traits stand before the item, the attribute directly on it
    tw = []
    for it, a, cl, t in cases:
        tw.append((it[len(pre2):], a, cl, t))
    global PRE
    old = PRE
    PRE = PRE + pre2 + "\n"
    try:
        pair(ctx, tw, "where")
    finally:
        PRE = old

    # ---- field types
    TYS = ["u8", "()", "!", "(T,)", "(T, U)", "[T; 2]", "[T; N]", "[u8; { 1 + 2 }]", "[u8; N]", "&'a T", "&'a mut T", "*const T", "*mut [T]", "fn()", "fn(T) -> U", "fn(&T) -> &u8", "for<'x> fn(&'x T) -> &'x u8", "for<'pin> fn(&'pin T) -> &'pin u8", "unsafe extern \"C\" fn(*const T)", "Box<dyn Fn(&T) -> U>", "Box<dyn for<'pin> Fn(&'pin T) -> &'pin U>", "Box<dyn Send + 'a>",
           "Option<Box<Self>>", "*const Self", "fn(Self)", "fn(&Self) -> &T", "PhantomData<Self>", "Box<dyn Fn(Self)>", "Vec<Self>", "Option<&'a Self>", "Box<[Self; 1]>", "std::collections::HashMap<T, Self>", "Box<dyn Rel<Self>>", "Box<(Self, T)>", "<Self as Rel4>::Z", "<T as Rel4>::Z", "T::Z", "<<T as Rel4>::Z as Clone2>::O", "<[T] as Rel4>::Z", "Self::Z",
           "core::pin::Pin<Box<T>>", "Pin<&'a mut T>", "PhantomPinned", "mty!(T)", "mty!(u8)", "Vec<mty!(T)>", "(T)", "((T))", "r#mod::r#type<T>", "self::Loc<T>", "super::p0_::Loc<T>", "crate::Glob", "::core::option::Option<T>", "Hold<'a, dyn Send + 'a>", "Hold<'a, [T]>", "Cn<N>", "Cn<{ N }>", "Cn<3>", "Cb<{ 1 < 2 }>", "impl_::X", "Box<dyn FnOnce() + Send + 'static>", "&'static str", "&'a (dyn Send + 'a)", "Option<fn(Option<Self>) -> Self>", "[Option<Box<Self>>; N]", "[u8; core::mem::size_of::<u32>()]", "[u8; { const X: usize = 2; X }]", "[u8; { struct Self_; 1 }]", "Box<dyn Tr<A = T, B = [Self]>>", "Box<dyn Tr<A = Self, B = str>>", "fn() -> Box<Self>", "Result<T, Box<Self>>"]
    TYS = [t for t in TYS if t not in ("super::p0_::Loc<T>", "crate::Glob", "!")]
    TAILS = ["[u8]", "str", "dyn Send", "dyn Send + 'a", "[T]", "dyn Fn(&Self) -> T", "dyn for<'pin> Fn(&'pin u8)", "Tail<T>", "[Option<Box<Self>>]", "dyn Rel<T>", "Tail<[T]>"]
    H = ("pub trait Rel4 { type Z; } impl<X: ?Sized> Rel4 for X { type Z = u8; } pub trait Clone2 { type O; } impl<X> Clone2 for X { type O = u8; } macro_rules! mty { ($t:ty) => { $t } } pub mod r#mod { pub struct r#type<T>(T); } pub struct Loc<T>(T); pub mod impl_ { pub struct X; } pub struct Tail<T: ?Sized>(T);\n")
    PRE = old + H

    def types(c):
        kind, st = c.pick("kind", KS, free=True)
        tail = c.pick("tail", [0, 1], free=True)
        if tail and kind == "enum":
            raise Prune
        t = c.pick("ty", TAILS if tail else TYS, free=True)
        pos = 1 if tail else c.pick("pos", [0, 1], free=True)
        mode = c.pick("mode", [0, 1] if tail else [0, 1, 2, 3], free=True)
        m = c.pick("pin", [1, 0], free=True)
        o = c.pick("other", [0, 1] if th else [0], free=True)
        args, pm, pr, po = mkargs(kind, mode)
        rest = "(&'a (), PhantomData<(T, U)>, Cn<N>)"
        tys = [t, rest] if pos == 0 else [rest, t]
        mask = [m, o] if pos == 0 else [o, m]
        g = ["'a", "T: 'a", "U: 'a", "const N: usize"]
        gu = ["'a", "T", "U", "N"]
        full = "S<'a, T, U, N>"
        sub = [re.sub(r"\bSelf\b", full, x) for x in tys]
        return (item(kind, st, tys, mask, g, ""), args, chk(kind, st, sub, mask, g, gu, "", pm=pm, pr=pr, po=po), f"type/{t}")
    try:
        pair(ctx, ctx.explore(types), "types")
    finally:
        PRE = old

    # ---- names
    NAMES = ["S", "T", "U", "a", "b", "x", "s", "this", "self_", "_self", "r#type", "r#fn", "r#struct", "r#async", "r#dyn", "r#union", "union", "auto", "default", "pin", "Pin", "pinned", "unpin", "Unpin", "drop", "Drop", "project", "project_ref", "project_replace", "Projection", "ProjectionRef", "ProjectionOwned", "SProjection", "PinnedDrop", "UnsafeUnpin", "PhantomData", "PhantomPinned", "Option", "Some", "None", "Result", "Ok", "Err", "Sized", "Box", "ptr", "mem", "core", "std", "alloc", "value", "target", "guard", "result", "replacement", "drop_inner", "_0", "_1", "pin_project", "_pin_project", "must_use", "MustNotImplDrop", "AlwaysUnpin", "_a", "é", "型"]
    raws = {"r#type", "r#fn", "r#struct", "r#async", "r#dyn"}

    def nm(c):
        what = c.pick("role", ["type", "field", "variant", "tparam", "cparam", "lifetime", "proj", "projref", "projown", "module"], free=True)
        n = c.pick("name", NAMES, free=True)
        kind, st = c.pick("kind", KS, free=True)
        mode = c.pick("mode", [2, 0], free=True)
        args, pm, pr, po = mkargs(kind, mode)
        tn, vn, f, gd, gu, tys = "S", "V", ["f0", "f1"], ["'a", "T", "const N: usize"], ["'a", "T", "N"], ["T", "(&'a u8, [u8; N])"]
        full = PRE.replace("", "")
        if what == "type":
            if n in ("T", "U", "Pin", "PhantomData", "PhantomPinned", "pin_project"):
                raise Prune
            tn = n
        elif what == "field":
            if st != "named":
                raise Prune
            f = [n, "zz"]
        elif what == "variant":
            if kind != "enum":
                raise Prune
            vn = n
        elif what == "tparam":
            if n in ("S", "Pin"):
                raise Prune
            gd[1], gu[1], tys[0] = n, n, n
        elif what == "cparam":
            # a const parameter that shares its name with a type in scope cannot be passed on without braces
            if n in ("T", "a", "this", "_1", "_0") or n[0].isupper() or n in ("core", "std", "alloc", "pin_project"):
                raise Prune
            gd[2], gu[2], tys[1] = f"const {n}: usize", n, f"(&'a u8, [u8; {n}])"
        elif what == "lifetime":
            if n in raws or n in ("r#union",):
                raise Prune
            gd[0], gu[0], tys[1] = "'" + n, "'" + n, f"(&'{n} u8, [u8; N])"
        elif what in ("proj", "projref", "projown"):
            if mode != 2 or n in ("S", "T", "Pin", "pin_project"):
                raise Prune
            pm, pr, po = [n if w == what else d for w, d in (("proj", "SP"), ("projref", "SR"), ("projown", "SO"))]
            args = f"(project = {pm}, project_ref = {pr}, project_replace = {po})"
        elif what == "module":
            if kind == "enum" or mode == 0 or n in ("pin_project", "Pin", "S") or st == "tuple":
                raise Prune
        if n == "_pin_project":  # reserved, like names with two underscores
            raise Prune
        if n in ("Some", "None", "Ok", "Err") and what == "field" or n in ("this", "_0", "_1") and st == "tuple" and what in ("type", "proj", "projref", "projown"):
            raise Prune  # see "scope" below
        # names that would shadow what the client code itself uses are imported under other names
        it = item(kind, st, tys, [1, 0], gd, "", names=f, vn=vn, nm=tn)
        cl = chk(kind, st, tys, [1, 0], gd, gu, "", names=f, vn=vn, nm=tn, pm=pm, pr=pr, po=po, lt="'qq")
        if "core" in (tn, pm, pr, po) or "std" in (tn, pm, pr, po):
            pass
        tag = f"name/{what}/{n}"
        return it, args, cl, tag, n if what == "module" else None
    cases = []
    for it, args, cl, tag, mod in ctx.explore(nm):
        role = tag.split("/")[1]
        if mod:
            it2 = f"$M{it}"
            src = (f"pub mod {mod} {{ use ::core::pin::Pin; ", it, args, cl, " }")
            cases.append((src, tag))
        else:
            cases.append((("use ::core::pin::Pin; ", it, args, cl, ""), tag))
    tw = {}
    for (a, it, args, cl, z), tag in cases:
        tw[a + it.replace("$p ", "") + z + "\n"] = None
    ps = [Prog(s, "ok", "twin") for s in tw]
    core.judge(ctx.deps(), ps, chunk=100, confirm_max=0)
    for p in ps:
        tw[p.src] = p.verdict
    ctx.part("names:ill-formed-items-discarded", sum(v == "err" for v in tw.values()))
    out = []
    for (a, it, args, cl, z), tag in cases:
        if tw[a + it.replace("$p ", "") + z + "\n"] == "ok":
            out.append(Prog(a + f"#[::pin_project::pin_project{args}] " + it.replace("$p", "#[pin]") + "\n" + cl.replace("mcrt::", "::mcrt::") + z + "\n", "ok", tag))
    ctx.judge(out, part="names", chunk=60)

    # ---- bindings of the generated code against values in scope
    cases = []
    N2, T2 = "pub struct S { #[pin] pub a: u8, pub b: u8 }", "pub struct S(#[pin] pub u8, pub u8);"
    for tag, pre, it in (("field/const", "pub const a: u8 = 1;", N2), ("field/static", "pub static a: u8 = 1;", N2), ("field/unit-struct", "pub struct a;", N2), ("field/tuple-struct", "pub struct a(u8);", N2), ("field/const-param", "", "pub struct S<const a: usize> { #[pin] pub a: [u8; a], pub b: u8 }"),
                         ("field/None", "", "pub struct S { #[pin] pub None: u8, pub b: u8 }"), ("field/Some", "", "pub struct S { #[pin] pub b: u8, pub Some: u8 }"), ("type/this", "", "pub struct this(#[pin] pub u8, pub u8);"), ("type/_0", "", "pub struct _0(#[pin] pub u8, pub u8);"),
                         ("field/fn", "pub fn a() {}", N2), ("tuple/fn", "pub fn _0() {}", T2), ("field/type", "pub type a = u8;", N2), ("field/mod", "pub mod a {}", N2), ("field/macro", "macro_rules! a { () => {} }", N2), ("field/trait", "pub trait a {}", N2), ("field/named-struct", "pub struct a { x: u8 }", N2), ("fn/this", "pub fn this() {}", T2)):
        cases.append(Prog(pre + "\n#[pin_project::pin_project] " + it + "\n", "ok", "scope/" + tag))
    # `Self` in a bound while an outlives requirement is only inferred from an unpinned field
    for p in ("T: Rel<Self>", "Option<Self>: Rel<T>", "Self: Rel<T>", "Self: Sized", "T: Rel<u8>"):
        for pin in ("", "#[pin] "):
            cases.append(Prog(PRE + f"#[pin_project] pub struct S<'a, T, U> where {p} {{ #[pin] pub t: T, {pin}pub u: &'a U }}\n", "ok", f"inferred-outlives/{pin}{p}"))
    ctx.judge(cases, part="scope")
