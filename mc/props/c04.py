"""C04: !Unpin and UnsafeUnpin fully decide whether a type is Unpin."""
from core import Prog, Prune
from unpin import *
from props.c03 import item, asserts, ALL
import itertools

BOUNDS = ("{!Unpin, UnsafeUnpin} x argument lists in every order x 60-type alphabet x pinned/unpinned x 4 item styles x "
          "10 UnsafeUnpin impl headers x 4 instantiations; generic-context derivability both ways; parameter lists")

# UnsafeUnpin impl headers and the instantiations they cover
IMPLS = [
    ("", N),
    ("unsafe impl<T: Flip + 'static, U: Flip + 'static> pin_project::UnsafeUnpin for S<T, U> {}", Y),
    ("unsafe impl<T: Flip + 'static + Unpin, U: Flip + 'static> pin_project::UnsafeUnpin for S<T, U> {}", T),
    ("unsafe impl<T: Flip + 'static, U: Flip + 'static> pin_project::UnsafeUnpin for S<T, U> where U: Unpin {}", U),
    ("unsafe impl<T: Flip + 'static + Unpin, U: Flip + 'static> pin_project::UnsafeUnpin for S<T, U> where U: Unpin {}", lambda e: T(e) and U(e)),
    ("unsafe impl<U: Flip + 'static> pin_project::UnsafeUnpin for S<NotUnpin, U> {}", lambda e: not T(e)),
    ("unsafe impl pin_project::UnsafeUnpin for S<UnpinTy, NotUnpin> {}", lambda e: T(e) and not U(e)),
    ("unsafe impl<T: Flip + 'static> pin_project::UnsafeUnpin for S<T, T> {}", lambda e: T(e) == U(e)),
    ("pub trait Mk {} impl Mk for NotUnpin {} unsafe impl<T: Flip + Mk + 'static, U: Flip + 'static> pin_project::UnsafeUnpin for S<T, U> {}", lambda e: not T(e)),
    ("unsafe impl<T: Flip + 'static, U: Flip + 'static> pin_project::UnsafeUnpin for S<T, U> where <T as Flip>::Out: Unpin {}", lambda e: not T(e)),
    ("use pin_project::UnsafeUnpin as UU; unsafe impl<T: Flip + 'static, U: Flip + 'static> UU for self::S<T, U> {}", Y),
]
STYLES = ["named", "tuple", "enum-one", "enum-split"]
PD = "#[pin_project::pinned_drop] impl<T: Flip + 'static, U: Flip + 'static> PinnedDrop for S<T, U> { fn drop(self: Pin<&mut Self>) {} }\n"


def arglists(unpin, enum):
    other = [[], ["project = SP"], ["project_ref = SR"], ["project = SP", "project_ref = SR"], ["PinnedDrop"], ["PinnedDrop", "project = SP"],
             ["project_replace = SO"], ["project = SP", "project_replace = SO"]]
    if not enum:
        other.append(["project_replace"])
    out = []
    for o in other:
        for perm in itertools.permutations([unpin] + o):
            out.append("(" + ", ".join(perm) + ")")
            if len(perm) == 1:
                out.append("(" + ", ".join(perm) + ",)")
    return out


def run(ctx):
    calibrate(ctx)
    th = ctx.thorough
    ps = []
    pd = lambda a: PD if "PinnedDrop" in a else ""

    def neg(c):
        st = c.pick("style", STYLES, free=True)
        t, _ = c.pick("type", ALL, free=True)
        p = c.pick("pinned", [1, 0], free=True)
        al = arglists("!Unpin", st.startswith("enum"))
        a = c.pick("args", al if t in ("T", "u8") or th else al[:1], free=True)
        return Prog(PRELUDE + item(st, [(t, p)], a) + pd(a) + asserts(N), "ok", "!Unpin/" + st)
    ps += ctx.explore(neg)

    def uns(c):
        st = c.pick("style", STYLES, free=True)
        t, _ = c.pick("type", ALL if th else [x for x in ALL if x[0] in ("T", "U", "u8", "NotUnpin", "Box<T>", "PhantomPinned", "<T as Flip>::Out", "(T, U)", "Always<T>", "m2::X")], free=True)
        p = c.pick("pinned", [1, 0], free=True)
        im, m = c.pick("impl", IMPLS, free=True)
        al = arglists("UnsafeUnpin", st.startswith("enum"))
        a = c.pick("args", al if t in ("T", "NotUnpin") and im in (IMPLS[0][0], IMPLS[1][0], IMPLS[2][0]) else al[:1], free=True)
        return Prog(PRELUDE + item(st, [(t, p)], a) + pd(a) + im + "\n" + asserts(m), "ok", "UnsafeUnpin/" + st)
    ps += ctx.explore(uns)

    # generic contexts
    NEED = "fn need<X: Unpin + ?Sized>() {}\n"
    for st in STYLES:
        for mode in ("!Unpin", "UnsafeUnpin"):
            for p in (0, 1):
                for have in (set(), {"T"}, {"U"}, {"T", "U"}):
                    bs = ", ".join(f"{x}: Flip + 'static" + (" + Unpin" if x in have else "") for x in ("T", "U"))
                    g = f"pub fn g<{bs}>() {{ need::<S<T, U>>() }}\n"
                    if mode == "!Unpin":
                        ps.append(Prog(PRELUDE + NEED + item(st, [("T", p)], "(!Unpin)") + g, "err", "generic/!Unpin"))
                    else:
                        for (im, _), need in zip(IMPLS[:5], (None, set(), {"T"}, {"U"}, {"T", "U"})):
                            ok = need is not None and need <= have
                            ps.append(Prog(PRELUDE + NEED + item(st, [("T", p)], "(UnsafeUnpin)") + im + "\n" + g, "ok" if ok else "err", "generic/UnsafeUnpin"))
    # other parameter lists, concrete types, unsized tails
    fixed = [
        ("pub struct S { a: u8, #[pin] b: u8 }", "", "S", ""),
        ("pub struct S<'a> { a: &'a u8, #[pin] b: u8 }", "<'a>", "S<'a>", "<'static>"),
        ("pub struct S<'a, 'b: 'a, X: 'b + ?Sized> { a: &'a &'b u8, #[pin] b: &'b X }", "<'a, 'b: 'a, X: 'b + ?Sized>", "S<'a, 'b, X>", "<'static, 'static, str>"),
        ("pub struct S<const K: usize> { a: u8, #[pin] b: [u8; K] }", "<const K: usize>", "S<K>", "<4>"),
        ("pub struct S<X: ?Sized> { a: u8, #[pin] b: X }", "<X: ?Sized>", "S<X>", "<[u8]>"),
        ("pub struct S<X: ?Sized> { a: u8, b: X }", "<X: ?Sized>", "S<X>", "<dyn Obj>"),
        ("pub struct S<X = u8> where X: Copy { a: u8, #[pin] b: X }", "<X: Copy>", "S<X>", ""),
        ("pub struct S(#[pin] PhantomPinned);", "", "S", ""),
        ("pub enum S { A { #[pin] x: PhantomPinned }, B(u8), C }", "", "S", ""),
        ("pub enum S<'a, X> { A { #[pin] x: X }, B(&'a u8), C }", "<'a, X>", "S<'a, X>", "<'static, PhantomPinned>"),
    ]
    for d, g, ty, inst in fixed:
        for vis in ("pub ", "", "pub(crate) "):
            dd = d.replace("pub struct", vis + "struct").replace("pub enum", vis + "enum")
            one = lambda b: f"const _: () = assert!(mcrt::is_unpin!(S{inst}) == {b});\n"
            ps.append(Prog(PRELUDE + f"#[pin_project(!Unpin)] {dd}\n" + one("false"), "ok", "fixed/!Unpin"))
            ps.append(Prog(PRELUDE + f"#[pin_project(UnsafeUnpin)] {dd}\n" + one("false"), "ok", "fixed/UnsafeUnpin-none"))
            ps.append(Prog(PRELUDE + f"#[pin_project(UnsafeUnpin)] {dd}\nunsafe impl{g} pin_project::UnsafeUnpin for {ty} {{}}\n" + one("true"), "ok", "fixed/UnsafeUnpin-all"))
            # the two modes cannot be observed as each other
            ps.append(Prog(PRELUDE + f"#[pin_project(!Unpin)] {dd}\nfn need<X: Unpin + ?Sized>() {{}}\npub fn g() {{ need::<S{inst}>() }}\n", "err", "fixed/need"))
    # `impl UnsafeUnpin` on a field type does not leak to the container, nor the reverse
    for f_im, s_im, m in (("unsafe impl pin_project::UnsafeUnpin for Fld {}", "", "false"),
                          ("", "unsafe impl pin_project::UnsafeUnpin for S {}", "true"),
                          ("unsafe impl pin_project::UnsafeUnpin for Fld {}", "unsafe impl pin_project::UnsafeUnpin for S {}", "true")):
        for p in ("#[pin] ", ""):
            ps.append(Prog(PRELUDE + f"pub struct Fld(PhantomPinned); {f_im}\n#[pin_project(UnsafeUnpin)] pub struct S {{ {p}f: Fld }}\n{s_im}\n"
                           f"const _: () = assert!(mcrt::is_unpin!(S) == {m}); const _: () = assert!(!mcrt::is_unpin!(Fld));\n", "ok", "leak"))
    ps.append(Prog(PRELUDE + "#[pin_project(UnsafeUnpin)] pub struct In<X> { #[pin] x: X }\nunsafe impl<X> pin_project::UnsafeUnpin for In<X> {}\n"
                   "#[pin_project(UnsafeUnpin)] pub struct S<X> { #[pin] i: In<X> }\nunsafe impl<X> pin_project::UnsafeUnpin for S<X> where In<X>: pin_project::UnsafeUnpin {}\n"
                   "const _: () = assert!(mcrt::is_unpin!(S<PhantomPinned>));\n", "ok", "nested"))
    ctx.judge(ps, part="instantiations", chunk=60)
