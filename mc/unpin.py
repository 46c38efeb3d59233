"""Field types with their Unpin model.

Each entry: (type text, model) where model maps an environment {param: bool} to bool.
The surrounding prelude declares every name used."""

PRELUDE = """use core::marker::{PhantomData, PhantomPinned}; use core::pin::Pin; use pin_project::pin_project; use mcrt::ut::*; use mcrt::ty;
"""

T = lambda e: e["T"]
U = lambda e: e["U"]
Y = lambda e: True
N = lambda e: False

# sized types, usable anywhere
SIZED = [
    ("T", T), ("U", U), ("u8", Y), ("UnpinTy", Y), ("NotUnpin", N), ("PhantomPinned", N), ("Box<T>", Y),
    ("Box<NotUnpin>", Y), ("&'static T", Y), ("&'static mut NotUnpin", Y), ("PhantomData<T>", T), ("PhantomData<NotUnpin>", N),
    ("PhantomData<fn(T)>", Y), ("Option<T>", T), ("Option<Box<T>>", Y), ("[T; 2]", T), ("[NotUnpin; 0]", N), ("(T,)", T), ("(T, U)", lambda e: T(e) and U(e)),
    ("()", Y), ("(u8, NotUnpin)", N), ("*const T", Y), ("*mut NotUnpin", Y), ("fn(T) -> U", Y), ("for<'x> fn(&'x T)", Y),
    ("<T as Flip>::Same", T), ("T::Same", T), ("(<T as Flip>::Same, U)", lambda e: T(e) and U(e)),
    ("m1::X", Y), ("m2::X", N), ("self::m2::X", N), ("Alias<T>", T), ("Ign<T>", Y), ("Pinned", N),
    ("Wrap<T>", T), ("Wrap<U>", U), ("Always<T>", Y), ("Always<NotUnpin>", Y), ("Never<T>", N), ("En<T>", T),
    ("Cst<0>", Y), ("CstN<1>", Y), ("CstN<2>", N), ("ty!(T)", T), ("ty!()", N), ("ty!(Box<T>)", Y), ("(T)", T), ("((NotUnpin))", N),
    ("Pin<Box<T>>", Y), ("Pin<&'static T>", Y), ("Vec<NotUnpin>", N), ("core::cell::UnsafeCell<T>", T), ("core::mem::ManuallyDrop<T>", T),
    ("Result<T, U>", lambda e: T(e) and U(e)), ("Wrap<Wrap<Wrap<T>>>", T), ("Wrap<Box<T>>", Y), ("Box<dyn Obj>", Y), ("std::rc::Rc<T>", Y),
]
FLIP = [("<T as Flip>::Out", lambda e: not T(e)), ("<U as Flip>::Out", lambda e: not U(e)), ("Wrap<<T as Flip>::Out>", lambda e: not T(e))]
# unsized, only as the last struct field
UNSIZED = [("[T]", T), ("[u8]", Y), ("str", Y), ("dyn Obj", N), ("dyn Obj + Unpin", Y), ("dyn ObjUnpin", Y), ("[NotUnpin]", N), ("Wrap<[T]>", T), ("Wrap<dyn Obj>", N)]

ENVS = [dict(T=a, U=b) for a in (True, False) for b in (True, False)]


def conc(b):
    return "UnpinTy" if b else "NotUnpin"


def calibrate(ctx):
    """The model itself is bound to the compiler: every alphabet entry, unannotated, must agree."""
    import core
    ps = []
    for t, m in SIZED + FLIP + UNSIZED:
        o = PRELUDE + f"pub type A<T, U> = {t};\n" if False else PRELUDE
        for e in ENVS:
            tt = conc(e["T"])
            uu = conc(e["U"])
            o += (f"mod q{int(e['T'])}{int(e['U'])} {{ use super::*; type T = {tt}; type U = {uu};\n"
                  f"const _: () = assert!(mcrt::is_unpin!({t.replace('T::Same', '<T as Flip>::Same')}) == {str(m(e)).lower()}); }}\n")
        ps.append(core.Prog(o.replace("self::m2", "mcrt::ut::m2"), "ok", "calibration " + t))
    bad, _ = core.judge(ctx.deps(), ps)
    if bad:
        raise core.EngineError("Unpin model disagrees with the compiler: " + bad[0].tag + " " + bad[0].diag)
    ctx.part("model-calibration", len(ps))
