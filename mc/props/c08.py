"""C08: a pinned_drop body means what the same body means in an ordinary method."""
from core import Prog
import core, re

BOUNDS = ("full product of ~45 expression contexts x ~45 common + type-specific atoms using self/Self/self:: on 9 type forms "
          "(generic, non-generic, tuple, enum, lifetime, const, path, ...) and an elided-lifetime header; each body is compiled as an ordinary method and as "
          "a pinned destructor of the same type and both are executed; 22 pattern contexts x pattern leaves x 9 + 7 positions and "
          "33 type forms x 31 type positions on 9 type forms; ~190 identifiers that resemble the rewritten words x 9 positions; bodies assembled from every macro_rules fragment kind; nested items (fn, impl, struct, trait, const, mod) that use self/Self; plus bodies that must fail in both")
ASSUMPTIONS = ["a macro call whose own tokens contain `fn` or define items is outside the property (documented heuristic)", "syntax which syn (the parser this crate depends on) cannot parse is outside"]

PRE = """use core::pin::Pin; use pin_project::{pin_project, pinned_drop};
pub mod inner { pub fn free(x: u32) -> u32 { x + 10 } } pub fn free(x: u32) -> u32 { x + 20 } pub const CQ: u32 = 5; pub unsafe fn unsafe_free() -> u32 { 3 } pub static mut SM: u32 = 0;
#[derive(Debug, PartialEq, Clone)] pub struct W<X> { pub v: X, pub w: u32 } pub struct W2<X>(pub u8, pub X); pub enum En<X> { V { a: X }, T(u8, X), #[allow(dead_code)] U }
pub trait Tw<X: ?Sized> { const Z: u32 = 21; fn tw() -> u32 { 22 } } impl<X, Y> Tw<Y> for W<X> {} impl<X> W<X> { pub const Y: u32 = 23; pub fn mk() -> u32 { 24 } pub fn mk2<Q>() -> u32 { 25 } }
pub fn tgen<X>() -> u32 { 26 } pub fn tgen2<X: ?Sized, Y>(_: Y) -> u32 { 27 }
pub trait Tr2 { const C: u32; type Out; fn tm(&self) -> u32; fn ts() -> u32; }
"""
API = """impl{g} {ty} {{ pub const K: u32 = 3; pub const LO: u32 = 2; pub const HI: u32 = 6; pub fn stat(x: u32) -> u32 {{ x + 1 }} pub fn gen<X>(x: u32) -> u32 {{ x + core::mem::size_of::<X>() as u32 }}
 pub fn m(&self) -> u32 {{ 7 }} pub fn pm(self: Pin<&mut Self>) -> u32 {{ 8 }} pub fn rm(self: Pin<&Self>) -> u32 {{ 9 }} }}
impl{g} Tr2 for {ty} {{ const C: u32 = 11; type Out = u16; fn tm(&self) -> u32 {{ 12 }} fn ts() -> u32 {{ 13 }} }}
"""
COMMON = [
    "Self::K", "<Self>::K", "Self::stat(1)", "Self::gen::<u8>(2)", "<Self as Tr2>::C", "<Self as Tr2>::ts()", "<Self as self::Tr2>::C", "Self::m(&self)",
    "Self::m(&*self)", "self.m()", "(&*self).m()", "self.as_ref().rm()", "Self::rm(self.as_ref())", "Tr2::tm(&*self)", "<Self as Tr2>::tm(&self)", "self::free(1)", "self::inner::free(1)",
    "inner::free(1)", "core::mem::size_of::<Self>() as u32", "core::mem::align_of_val::<Self>(&*self) as u32", "{ let s: &Self = &self; s.m() }",
    "{ let s: Pin<&Self> = self.as_ref(); s.m() }", "(|s: &Self| s.m())(&self)", "{ let f: fn(&Self) -> u32 = Self::m; f(&self) }", "{ let v: Vec<&Self> = vec![&*self]; v[0].m() }",
    "Vec::<Self>::new().len() as u32", "<<Self as Tr2>::Out>::MAX.count_ones()", "{ fn local(x: u32) -> u32 { x + 1 } local(self.m()) }",
    "{ struct L { v: u32 } impl L { fn n(v: u32) -> Self { Self { v } } fn g(&self) -> u32 { self.v } } L::n(5).g() }", "{ use self::inner::free as ff; ff(2) }",
    "{ const Q: u32 = self::CQ; Q }", "match 5 { Self::LO..=Self::HI => 1, _ => 2 }", "match 3 { Self::K => 1, _ => 2 }", "Option::<&Self>::None.map_or(3, |s| s.m())",
    "{ let Some(s) = Some(&*self) else { return }; Self::m(s) }", "{ let p = &*self as *const Self; (p as usize != 0) as u32 }", "(core::any::type_name::<Self>().len() > 0) as u32",
    "{ let b: Box<dyn Fn(&Self) -> u32 + '_> = Box::new(|s: &Self| s.m()); b(&self) }", "{ let x: [&Self; 1] = [&self]; x[0].m() }",
    "{ trait Loc { fn l(&self) -> u32; } impl Loc for u8 { fn l(&self) -> u32 { *self as u32 } } 7u8.l() }", "{ let self_ = 3u32; self_ }", "{ let f = async { self.m() }; drop(f); 3 }",
    "{ enum X { A } impl X { const Z: Self = Self::A; } match X::Z { X::A => 4 } }", "self::CQ", "core::mem::size_of_val(&self) as u32", "{ let c = || -> &Self { &self }; c().m() }",
    "<Self as Tr2>::Out::MIN as u32", "{ let r: Result<u32, core::marker::PhantomData<Self>> = Ok(3); r.unwrap_or(0) }", "{ #[allow(unused_variables)] let q = Self::K; q }",
    "if Self::K < Self::HI { 1 } else { 2 }", "{ let _ = (Self::LO < Self::HI, Self::K > (2)); 3 }", "Self::K as u8 as u32",
]
MUT = ["self.as_mut().pm()", "Self::pm(self.as_mut())", "{ let mut this = self.as_mut(); this.as_mut().pm() }", "{ let t: Pin<&mut Self> = self.as_mut(); t.pm() }"]
MOVE = ["self.pm()", "Self::pm(self)", "{ let s = self; s.pm() }", "(move || self.m())()"]

TYPES = {
    "generic": dict(g="<T: Clone>", use="<T>", ty="Ty<T>", inst="Ty<u8>", decl="#[pin_project(PinnedDrop)] pub struct Ty<T: Clone> { #[pin] p: T, u: u32 }", mk="Ty { p: 1u8, u: 3 }",
                    atoms=["self.u", "{ let Self { u, .. } = &*self; *u }", "if let Self { u: 3, .. } = &*self { 1 } else { 2 }", "matches!(&*self, Self { u: 3, .. }) as u32",
                           "match &*self { &Self { u, .. } => u }", "{ let f = |Self { u, .. }: &Self| *u; f(&self) }", "{ if false { core::mem::forget(Self { p: todo!(), u: 1 }); } 3 }",
                           "{ let x: Option<Self> = None; x.map_or(3, |s| { let r = s.u; core::mem::forget(s); r }) }", "{ let z: &dyn Fn(T, u32) -> Self = &|p, u| Self { p, u }; let _ = z; 3 }",
                           "{ let q: T = self.p.clone(); drop(q); 3 }", "match (&*self, 1) { (Self { u: 1 | 2, .. }, _) => 1, (Self { p: _, u: _ }, x) => x }", "{ let [Self { u, .. }] = [&*self]; *u }"],
                    mutatoms=["*self.as_mut().project().u", "{ *self.as_mut().project().u += 1; self.u }"], moveatoms=["*self.project().u"]),
    "plain": dict(g="", use="", ty="Ty", inst="Ty", decl="#[pin_project(PinnedDrop)] pub struct Ty { #[pin] p: u8, u: u32 }", mk="Ty { p: 1u8, u: 3 }",
                  atoms=["self.u", "{ let Self { u, .. } = &*self; *u }", "matches!(&*self, Self { u: 3, .. }) as u32", "{ let s = core::mem::ManuallyDrop::new(Self { p: 1, u: 2 }); s.u }",
                         "{ let mut s = core::mem::ManuallyDrop::new(Self { p: 1, u: 2 }); *s = unsafe { core::ptr::read(&Self { u: 5, ..core::mem::ManuallyDrop::into_inner(core::mem::ManuallyDrop::new(core::mem::zeroed::<Self>())) }) }; 4 }" if False else "{ const fn k<X>() -> u32 { 4 } k::<Self>() }",
                         "{ self.u }"],
                  mutatoms=["{ self.u += 1; self.u }", "{ let Self { u, .. } = &mut *self; *u += 1; *u }"], moveatoms=["self.get_mut().u"]),
    "tuple": dict(g="<T: Clone>", use="<T>", ty="Ty<T>", inst="Ty<u8>", decl="#[pin_project(PinnedDrop)] pub struct Ty<T: Clone>(#[pin] T, u32);", mk="Ty(1u8, 3)",
                  atoms=["self.1", "{ let Self(_, u) = &*self; *u }", "matches!(&*self, Self(_, 3)) as u32", "{ let z: fn(T, u32) -> Self = Self; let _ = z; 3 }", "{ if false { core::mem::forget(Self(todo!(), 1)); } 3 }",
                         "if let &Self(_, x) = &*self { x } else { 0 }", "{ let z = Some(3).map(|u| core::mem::ManuallyDrop::new(Self(self.0.clone(), u))); z.unwrap().1 }", "{ let Self { 1: u, .. } = &*self; *u }",
                         "{ let z = core::mem::ManuallyDrop::new(Self { 0: self.0.clone(), 1: 6 }); z.1 }"],
                  mutatoms=["*self.as_mut().project().1"], moveatoms=[]),
    "enum": dict(g="<T: Clone>", use="<T>", ty="Ty<T>", inst="Ty<u8>", decl="#[pin_project(PinnedDrop, project = TyProj)] pub enum Ty<T: Clone> { A(#[pin] T, u32), B { u: u32 }, C }", mk="Ty::A(1u8, 3)",
                 atoms=["match &*self { Self::A(_, u) => *u, Self::B { u } => *u, Self::C => 0 }", "matches!(&*self, Self::A(..)) as u32", "matches!(&*self, Self::B { u: 3 } | Self::C) as u32",
                        "if let Self::A(_, 3) = &*self { 1 } else { 2 }", "{ core::mem::forget(Self::C); 3 }", "{ core::mem::forget(Self::B { u: 3 }); 4 }", "{ let f: fn(T, u32) -> Self = Self::A; let _ = f; 3 }",
                        "{ use self::Ty::*; matches!(&*self, A(..)) as u32 }", "{ let v = [Self::C]; let r = matches!(v, [Self::C, ..]); core::mem::forget(v); r as u32 }", "match &*self { Self::C => 1, _ => 2 }",
                        "match &*self { &Self::B { u } | &Self::A(_, u) => u, Self::C => 1 }", "{ core::mem::forget(Some(4).map(|u| Self::B { u })); 5 }", "{ core::mem::forget(Self::A(todo!(), 1)); 3 }" if False else "{ if false { core::mem::forget(Self::A(todo!(), 1)); } 3 }"],
                 mutatoms=["match self.as_mut().project() { TyProj::A(_, u) => { *u += 1; *u } _ => 0 }"], moveatoms=[]),
    "lifetime": dict(g="<'a, T: Clone>", use="<'a, T>", ty="Ty<'a, T>", inst="Ty<'static, u8>", decl="#[pin_project(PinnedDrop)] pub struct Ty<'a, T: Clone> { #[pin] p: T, u: &'a u32 }", mk="Ty { p: 1u8, u: &3 }",
                     atoms=["*self.u", "{ let Self { u, .. } = &*self; **u }", "matches!(&*self, Self { u: 3, .. }) as u32", "{ let r: &'a u32 = self.u; *r }", "{ let x: Option<&'a Self> = None; x.map_or(3, |s| *s.u) }"],
                     mutatoms=[], moveatoms=["**self.project().u"]),
    "const": dict(g="<const N: usize>", use="<N>", ty="Ty<N>", inst="Ty<2>", decl="#[pin_project(PinnedDrop)] pub struct Ty<const N: usize> { #[pin] p: [u8; N], u: u32 }", mk="Ty { p: [1, 2], u: 3 }",
                  atoms=["N as u32", "{ let Self { p, .. } = &*self; p.len() as u32 }", "[0u8; N].len() as u32", "matches!(&*self, Self { u: 3, .. }) as u32", "{ let a: [u8; N] = self.p; a.len() as u32 }"],
                  mutatoms=[], moveatoms=[]),
    "path": dict(g="<T: Clone>", use="<T>", ty="def::Ty<T>", inst="def::Ty<u8>", decl="pub mod def { use super::*; #[pin_project(PinnedDrop)] pub struct Ty<T: Clone> { #[pin] pub p: T, pub u: u32 } }", mk="def::Ty { p: 1u8, u: 3 }",
                 atoms=["self.u", "{ let Self { u, .. } = &*self; *u }", "matches!(&*self, Self { u: 3, .. }) as u32", "matches!(&*self, def::Ty { u: 3, .. }) as u32"], mutatoms=["*self.as_mut().project().u"], moveatoms=[]),
}
TYPES["penum"] = dict(g="", use="", ty="Ty", inst="Ty", decl="#[pin_project(PinnedDrop)] pub enum Ty { A(#[pin] u8, u32), B { u: u32 }, C }", mk="Ty::A(1u8, 3)", atoms=["Self::B { u: 3 }.m2()", "matches!(*self, Self::A(1, Self::K)) as u32"][1:], mutatoms=[], moveatoms=[])
TYPES["ptuple"] = dict(g="", use="", ty="Ty", inst="Ty", decl="#[pin_project(PinnedDrop)] pub struct Ty(#[pin] u8, u32);", mk="Ty(1u8, 3)", atoms=["self.1", "matches!(*self, Self(1, Self::K)) as u32"], mutatoms=["{ self.1 += 1; self.1 }"], moveatoms=[])
# (template, hole inside macro tokens)
CTX = [
    "$E", "{ $E }", "if $E > 0 { $E } else { 0 }", "(|| $E)()", "[$E][0]", "($E, 1).0", "match $E { x if x > 0 => x, y => y + 1 }", "loop { break $E; }", "vec![$E][0]",
    "format!(\"{}\", $E).len() as u32", "{ assert!($E < 1_000_000); 5 }", "{ assert_eq!($E, $E, \"{}\", $E); 6 }", "{ macro_rules! m { () => { $E } } m!() }",
    "{ macro_rules! m { ($e:expr) => { $e + 1 } } m!($E) }", "{ macro_rules! m { ($($t:tt)*) => { $($t)* } } m!($E) }", "vec![vec![$E]][0][0]", "unsafe { core::convert::identity($E) }",
    "{ let x: u32 = $E; x }", "{ let mut a = 0; for _ in 0..1 { a = $E; } a }", "{ let mut a = 0; while a == 0 { a = 1 + $E; } a }", "'l: { break 'l $E; }", "Some($E).unwrap_or($E)",
    "$E.wrapping_add($E)", "u32::max($E, 1)", "(-($E as i64)) as u32", "{ struct W { v: u32 } W { v: $E }.v }", "{ let mut a = [0u32; 1]; a[0] = $E; a[0] }", "{ let mut z = 0; z += $E; z }",
    "core::iter::once(()).map(|_| $E).sum::<u32>()", "{ #[allow(unused)] let y = $E; y }", "match () { () if $E > 0 => 1, _ => 2 }", "{ let r: Result<u32, ()> = (|| Ok($E))(); r.unwrap() }",
    "{ if let x @ 0..=4_000_000_000 = $E { x } else { 9 } }", "{ use std::fmt::Write; let mut s = String::new(); write!(s, \"{}{a}\", $E, a = $E).unwrap(); s.len() as u32 }", "matches!($E, 0..=9) as u32",
    "(if true { $E } else { unreachable!() })", "[1, $E].iter().sum::<u32>()", "*Box::new($E)", "{ let f = |a: u32| -> u32 { a + $E }; f(1) }", "{ let _: () = { $E; }; 3 }", "*&$E", "{ return mcrt::note(($E).to_string()); }",
    "{ $E; let y = $E; y }", "{ let y = $E; { let y = y + $E; y } }", "u32::from($E > 1)", "{ mcrt::note(format!(\"{:?}\", [$E])); 1 }", "core::convert::identity(($E, \"x\")).0",
]


# ---- systematic patterns: wrapping context x leaf x position
PAT_WRAP = [("$P", "$V"), ("($P, _)", "($V, 1)"), ("(_, $P, ..)", "(1, $V, 2)"), ("Some($P)", "Some($V)"), ("Some(Some($P))", "Some(Some($V))"), ("[$P, ..]", "[$V, $V]"), ("[.., $P]", "[$V, $V]"), ("&$P", "&$V"), ("&($P)", "&$V"),
            ("_x @ $P", "$V"), ("_x @ Some($P)", "Some($V)"), ("W { v: $P, .. }", "W { v: $V, w: 1 }"), ("W { v: Some($P), w: 1 }", "W { v: Some($V), w: 1 }"), ("self::W { v: $P, w: _ }", "W { v: $V, w: 1 }"),
            ("W2(_, $P)", "W2(1, $V)"), ("En::V { a: $P }", "En::V { a: $V }"), ("En::T(1, $P)", "En::T(1, $V)"), ("None | Some($P)", "Some($V)"), ("Ok($P) | Err($P)", "Result::<_, _>::Ok($V).or_else(|e| if true { Err(e) } else { Ok($V) })"),
            ("((($P)))", "$V"), ("(W { v: ($P, _), .. }, W2(_, Some($P)))", "(W { v: ($V, 1), w: 1 }, W2(1, Some($V)))"), ("Some(W { v: $P, .. })", "Some(W { v: $V, w: 1 })")]
CONST_LEAF = ["Self::K", "Self::LO..=Self::HI", "..=Self::HI", "Self::LO..", "Self::LO..Self::HI", "(Self::K | Self::LO)", "<Self>::K", "<Self as Tr2>::C", "<Self as Tr2>::C..=20", "self::CQ", "Self::K..=self::CQ", "(1 | Self::K)"]
PAT_POS = ["match $V { $P => 1, _ => 2 }", "match $V { _ if false => 0, $P => 1, _ => 2 }", "if let $P = $V { 1 } else { 2 }", "{ let mut n = 2; while let $P = $V { n = 1; break; } n }", "{ let $P = $V else { return mcrt::note(\"else\") }; 1 }",
           "matches!($V, $P) as u32", "match $V { $P if Self::K > 1 => 1, _ => 2 }", "(match $V { $P => Some(1), _ => None }).map_or(3, |x: u32| x + Self::K)", "{ assert!(matches!($V, $P) || true); 1 }"]
IRREF_POS = ["{ let $P = $V; 1 }", "(|$P| 1)($V)", "{ let mut n = 0; for $P in [$V] { n += 1; } n }", "match $V { $P => 1 }", "(|_: u8, $P| Self::K)(1, $V)", "{ let c = move |($P, _)| 2; c(($V, 1)) }", "{ let ($P, n) = ($V, 4); n }"]
SELF_LEAF = {"generic": ["Self { u: 3, .. }", "Self { u: 1..=4, p: _ }", "&Self { u: 4.., .. }", "Self { .. }"], "plain": ["Self { u: 3, .. }", "Self { u: Self::K, .. }", "Self { u: Self::LO..=Self::HI, p: 1 }", "&Self { u: 4.., .. }", "Self { p: 0 | 1, u: _ }", "Ty { u: Self::K, .. }", "Ty { u: Self::LO | Self::HI, .. }"],
             "tuple": ["Self(_, 3)", "Self(.., 1..=4)", "&Self(_, 4..)", "Self { 1: 3, .. }", "Self(..)"], "enum": ["Self::A(_, 3)", "Self::B { u: 3 }", "Self::C", "(Self::C | Self::A(..))", "&Self::A(_, 1 | 3)", "Self::B { .. }"],
             "penum": ["Self::A(_, Self::K)", "Self::A(_, Self::LO..=Self::HI)", "(Self::B { u: Self::K } | Self::A(0..=1, _))", "Ty::A(_, Self::K)", "Ty::B { u: Self::K }", "Self::C", "&Self::A(1, Self::K | Self::LO)"],
             "ptuple": ["Self(_, Self::K)", "Self(.., Self::LO..=Self::HI)", "Self { 1: Self::K, .. }", "Ty(_, Self::K)", "Ty { 1: Self::K | 9, .. }"],
             "lifetime": ["Self { u: 3, .. }", "Self { u: &3, p: _ }", "&Self { u: &(4..), .. }"], "const": ["Self { u: 3, .. }", "Self { p: [_, ..], u: 1..=4 }"], "path": ["Self { u: 3, .. }", "def::Ty { u: 3, .. }"]}
IRREF_LEAF = {"generic": ["Self { .. }", "&Self { u: _, .. }", "Self { p: _, u: _u }"], "plain": ["Self { .. }", "&Self { u: _, p: _q }"], "tuple": ["Self(..)", "&Self(_, _u)", "Self { 1: _u, .. }"], "ptuple": ["Self(..)"], "lifetime": ["Self { .. }", "Self { u: _u, p: _ }"],
              "const": ["Self { .. }", "Self { p: _p, .. }"], "path": ["Self { .. }"], "enum": [], "penum": []}
# ---- systematic types: form x position
TY_FORM = ["Self", "(Self,)", "(u8, Self)", "[Self; 1]", "[Self; 0]", "*const Self", "*mut Self", "fn(Self) -> Self", "fn(u8, Self)", "fn() -> Self", "Box<Self>", "Box<dyn Fn(Self) -> Self>", "Box<dyn Fn(u8) -> Self>", "Option<Self>", "Vec<Option<Self>>", "core::marker::PhantomData<Self>",
           "<Self as Tr2>::Out", "<Vec<Self> as IntoIterator>::Item", "Pin<Box<Self>>", "Result<Self, ((), Self)>", "unsafe extern \"C\" fn(*const Self)", "Box<dyn Tw<Self>>", "Box<dyn Iterator<Item = Self>>", "(Self)", "W<Self>", "self::W<Self>", "W<W<(Self, u8)>>", "Box<[Self]>",
           "for<'x> fn(&'x Self, &'x u8) -> &'x u8", "<self::W<Self> as PartialEqHelper>::Q" if False else "Vec<<Self as self::Tr2>::Out>", "[(); { 3 }]", "Option<Box<dyn Fn(&Self)>>", "fn(fn(Self))"]
TY_POS = ["core::mem::size_of::<$T>() as u32", "{ let x: Option<$T> = None; x.is_none() as u32 }", "Option::<$T>::None.is_none() as u32", "<Option<$T>>::None.is_none() as u32", "<Vec<$T> as IntoIterator>::into_iter(Vec::new()).count() as u32", "(|_: Option<$T>| 3u32)(None)",
          "(|| -> Option<$T> { None })().is_none() as u32", "(None as Option<$T>).is_none() as u32", "{ let f: fn(Option<$T>) -> u32 = |_| 3; f(None) }", "core::ptr::null::<$T>().is_null() as u32", "(0 as *const $T).is_null() as u32", "{ let _ = core::marker::PhantomData::<$T>; 3 }",
          "Vec::new().into_iter().collect::<Vec<$T>>().len() as u32", "W::<$T>::mk()", "<W<$T>>::Y", "<W<$T> as Tw<$T>>::Z", "<W<u8> as Tw<$T>>::tw()", "W::<u8>::mk2::<$T>()", "W::<$T>::mk2::<Option<$T>>()", "tgen::<$T>()", "self::tgen::<$T>()", "tgen2::<$T, _>(|_: &$T| 1)", "vec![None::<$T>].len() as u32",
          "{ assert_eq!(core::mem::size_of::<$T>(), core::mem::size_of::<($T,)>()); 3 }", "{ let x: Vec<($T, u8)> = vec![]; x.len() as u32 }", "{ macro_rules! m { ($t:ty) => { tgen::<$t>() } } m!($T) }", "{ let _x: fn(&$T) -> &$T = |x| x; 4 }", "if let Some(_) = None::<$T> { 1 } else { 2 }",
          "match Option::<$T>::None { Some(_) => 1, None => 2 }", "{ let x: [Option<$T>; 0] = []; x.len() as u32 }", "{ let mut it = core::iter::empty::<$T>(); it.next().is_some() as u32 }"]


# ---- identifiers next to the words that mean something to the rewriting
WORDS = ["fn", "self", "Self", "unsafe", "impl", "enum", "struct", "macro_rules", "drop", "Pin", "crate", "use", "const", "static", "mod", "trait", "let", "super"]
IDENTS = sorted({x for w in WORDS for x in (w + "s", w + "_", "_" + w, "x" + w, w.upper(), w + "1", w[:-1] + "q", "r#" + w, w + "_x", w.capitalize(), w + w)} - {"r#self", "r#Self", "r#super", "r#crate", "r#drop", "r#Pin", "r#macro_rules", "Self", "self", "Pin"})
ID_POS = ["{ let $I = 3u32; vec![$I + self.m()][0] }", "{ let $I = self.m(); assert_eq!($I, self.m()); $I }", "{ struct Q0 { $I: u32 } let q = Q0 { $I: self.m() }; assert!(q.$I == self.m()); q.$I + Self::K }", "{ fn $I(x: u32) -> u32 { x } vec![$I(self.m())][0] }",
          "{ mod q0 { pub const $I: u32 = 4; } format!(\"{}{}\", q0::$I, self.m()).len() as u32 }", "{ let $I = |x: u32| x + Self::K; $I(self.m()) }", "match self.m() { $I if $I > 1 => vec![$I, self.m()][0], _ => 0 }", "{ macro_rules! mq { ($$I:ident) => { $$I } } let a = self.m(); mq!(a) }",
          "{ trait Q1 { fn $I(&self) -> u32; } impl Q1 for u32 { fn $I(&self) -> u32 { *self } } vec![self.m().$I()][0] }", "{ let v = ($I, self.m()); v.1 }"][:9]


# ---- pieces of the body that arrive as macro fragments: kind -> (values, contexts)
FRAG = {
    "ty": (["Self", "Option<Self>", "<Self as Tr2>::Out", "Vec<&'static u8>", "[Self; 1]", "self::W<Self>", "(Self, u8)", "Box<dyn Fn(Self)>"], ["core::mem::size_of::<$x>() as u32", "vec![tgen::<$x>()][0]", "{ let v: Vec<$x> = Vec::new(); v.len() as u32 }", "{ assert_eq!(core::mem::size_of::<$x>(), core::mem::size_of::<($x,)>()); 3 }",
           "vec![None::<$x>].len() as u32", "format!(\"{}\", tgen::<$x>()).len() as u32", "vec![W::<$x>::mk(), <W<$x>>::Y].iter().sum::<u32>()", "{ let f = |_: Option<$x>| 3u32; f(None) }", "vec![vec![(tgen::<$x>(), [tgen::<$x>()])]][0][0].0"]),
    "tyself": (["Self", "<Self>", "W<Self>"], ["<$x as Tr3>::Q", "vec![<$x as Tr3>::Q][0]", "{ assert!(<$x as Tr3>::q() > 0); 3 }", "<$x>::q()", "vec![<$x>::q()][0]"]),
    "path": (["Self::K", "<Self as Tr2>::C", "self::CQ", "<Self>::HI"], ["$x", "vec![$x][0]", "{ assert!($x > 0); $x }", "[$x, $x + 1][1]", "vec![vec![$x + 1]][0][0]", "(|| $x)()", "format!(\"{}\", $x).len() as u32"]),
    "pathf": (["Self::stat", "<Self>::stat", "self::free", "Self::gen::<u8>", "self::inner::free", "Self::gen::<Self>"], ["$x(1)", "vec![$x(1)][0]", "[1, 2].iter().copied().map($x).sum::<u32>()", "{ assert!($x(1) > 0); 3 }"]),
    "expr": (["Self::K", "self.m()", "self::free(1)", "Self::stat(1)", "Self::m(&*$s)", "{ Self::K }", "Self::K + self.m()", "(|s: &Self| s.m())(&*self)", "<Self as Tr2>::tm(&self)", "vec![self.m()][0]", "vec![Self::K][0]", "{ let z: &Self = &self; z.m() }", "matches!(self.m(), 0..=9) as u32",
              "if Self::K > 1 { self.m() } else { 3 }", "unsafe { unsafe_free() + self.m() }"],
             ["$x", "vec![$x][0]", "{ assert!($x > 0); $x }", "[$x, $x + 1][1]", "vec![vec![$x]][0][0]", "(|| $x)()", "format!(\"{}\", $x).len() as u32", "{ macro_rules! n { ($y:expr) => { $y + 1 } } n!($x) }", "{ macro_rules! n { ($($y:tt)*) => { $($y)* } } n!($x) }", "match $x { q => q }", "{ let q = $x; q + $x }"]),
    "ident": (["K", "LO"], ["Self::$x", "vec![Self::$x][0]", "<Self>::$x", "vec![<Self>::$x][0]"]),
    "identself": (["self"], ["$x.m()", "vec![$x.m()][0]", "{ let t = &*$x; t.m() }", "(&*$x).m()", "vec![Self::m(&*$x)][0]", "(|| $x.m())()", "format!(\"{}\", $x.m()).len() as u32"]),
    "ttself": (["self"], ["$x.m()", "vec![$x.m()][0]", "{ let t = &*$x; t.m() }", "(&*$x).m()", "vec![Self::m(&*$x)][0]", "(|| $x.m())()", "vec![$x::free(1)][0]", "$x::free(2)"]),
    "ttSelf": (["Self"], ["$x::K", "vec![$x::K][0]", "{ let t: &$x = &self; t.m() }", "$x::stat(1)", "vec![$x::stat(1)][0]", "vec![tgen::<$x>()][0]", "<$x as Tr2>::C", "vec![<$x as Tr2>::C][0]", "{ assert!(matches!(&*self, $x { .. }) || true); 3 }"]),
    "block": (["{ Self::K }", "{ self.m() }", "{ let z: &Self = &self; z.m() + Self::K }", "{ vec![self.m()][0] }"], ["$x", "vec![$x][0]", "(|| $x)()", "{ assert!(true || $x > 0); 3 }", "if true $x else $x", "loop { break $x; }"]),
    "stmt": (["let zz = self.m()", "let zz = Self::K", "let zz = vec![self.m()]"], ["{ $x; 3 }", "{ $x; let _ = || { $x; }; 4 }"]),
    "literal": (["3", "-3"], ["vec![$x as u32, Self::K][0]", "match self.m() as i64 { $x => 1, _ => vec![Self::K][0] }"]),
    "pat": (["Self { .. }", "&Self { .. }", "_q", "Self { u: _, .. }"], ["match &*self { $x => 1, #[allow(unreachable_patterns)] _ => 2 }", "if let $x = &*self { 1 } else { 2 }", "matches!(&*self, $x) as u32", "{ assert!(matches!(Some(&*self), Some($x))); 3 }", "(|$x: &Self| 3u32)(&*self)"]),
    "pat_param": (["Self { .. }", "_q"], ["(|$x: &Self| 3u32)(&*self)", "{ let $x = &*self; 3 }", "matches!((&*self, 1), ($x, 1)) as u32"]),
    # not: a `lifetime` fragment as a label, a `stmt` fragment with a typed `let` (syn does not parse them)
}
FPRE = "pub trait Tr3 { const Q: u32; fn q() -> u32 { 31 } } impl<T: ?Sized> Tr3 for T { const Q: u32 = 33; }\n"


def fragprog(tn, kind, x, cx, which="both"):
    t = TYPES[tn]
    k = {"tyself": "ty", "pathf": "path", "identself": "ident", "ttself": "tt", "ttSelf": "tt"}.get(kind, kind)
    b = f"let r: u32 = {cx}; mcrt::note(r.to_string());".replace("self", "$s").replace("$s_", "self_") if kind not in ("tyself0",) else ""
    mac = (f"macro_rules! mk {{ (@refe $s:ident ; $x:{k}) => {{ impl{t['g']} {t['ty']} {{ pub fn reference($s: Pin<&mut Self>) {{ {b} }} }} }};\n"
           f"(@pd $s:ident ; $x:{k}) => {{ #[pinned_drop] impl{t['g']} PinnedDrop for {t['ty']} {{ fn drop($s: Pin<&mut Self>) {{ {b} }} }} }}; }}\n")
    pre = PRE + FPRE + t["decl"] + "\n" + API.format(g=t["g"], ty=t["ty"]) + mac
    x = x.replace("$s", "self")
    ref = f"mk!(@refe self ; {x});\n"
    pd = f"mk!(@pd self ; {x});\n"
    if which == "ref":
        return pre + ref + f"#[pinned_drop] impl{t['g']} PinnedDrop for {t['ty']} {{ fn drop(self: Pin<&mut Self>) {{}} }}\n"
    if which == "pd":
        return pre + pd
    return pre + ref + pd + go_fn(t)


def in_macro(ctxt):
    i = ctxt.index("$E")
    # any hole between a `!(`/`![`/`! {` and its closing counts
    return bool(re.search(r"\b(vec|format|assert|assert_eq|m|write|matches|macro_rules)!", ctxt))


def outside(toks):
    return re.search(r"\b(fn|impl|enum)\b", toks)


def body(c, a):
    return f"let r: u32 = {c.replace('$E', '(' + a + ')')}; mcrt::note(r.to_string());"


def prog(tn, b, sig, which="both", implg=None, implty=None):
    t = TYPES[tn]
    api = API.format(g=t["g"], ty=t["ty"])
    ref = f"impl{t['g']} {t['ty']} {{ pub fn reference({sig}: Pin<&mut Self>) {{ {b} }} }}\n"
    empty = "" if which != "ref" else "PD0"
    ig = t["g"] if implg is None else implg
    ity = t["ty"] if implty is None else implty
    pd = f"#[pinned_drop] impl{ig} PinnedDrop for {ity} {{ fn drop({sig}: Pin<&mut Self>) {{ {b if which != 'ref' else ''} }} }}\n"
    go = go_fn(t)
    if tn == "path":
        # inherent impls must be reachable from here: same crate, so they are
        pass
    if which == "both":
        return PRE + t["decl"] + "\n" + api + ref + pd + go
    if which == "ref":
        return PRE + t["decl"] + "\n" + api + ref + pd
    return PRE + t["decl"] + "\n" + api + pd


def go_fn(t):
    return (f"pub fn go(n: &str) {{ mcrt::single(n, || {{ let mut a = Box::pin({t['mk']}); a.as_mut().reference(); let want = mcrt::take_log(); core::mem::forget(a); "
          f"let b: Pin<Box<{t['inst']}>> = Box::pin({t['mk']}); drop(b); let got = mcrt::take_log(); "
          "if want == got && !want.is_empty() { Ok(2) } else { Err(format!(\"as a method: {want:?}, as pinned destructor: {got:?}\")) } }); }\n")


def run(ctx):
    th = ctx.thorough
    variants = []  # (type, impl generics, impl type)
    ps, info = [], {}

    def cases(c):
        tn = c.pick("type", list(TYPES), free=True)
        t = TYPES[tn]
        kinds = [(a, "self") for a in COMMON + t["atoms"]] + [(a, "mut self") for a in MUT + t["mutatoms"]] + [(a, "self") for a in MOVE + t["moveatoms"]]
        a, sig = c.pick("atom", kinds, free=True)
        full = th or tn in ("generic", "enum") or a in t["atoms"]
        cx = c.pick("context", CTX if full else [CTX[i] for i in (0, 3, 8, 9, 12, 13, 34)], free=True)
        if in_macro(cx) and outside(cx.replace("$E", a)):
            raise core.Prune
        if cx.count("$E") > 1 and ("+= 1" in a or a in MOVE):
            raise core.Prune  # not the same value (or not usable) twice
        return (tn, a, sig, cx)
    for tn, a, sig, cx in ctx.explore(cases):
        b = body(cx, a)
        p = Prog(prog(tn, b, sig), tag=f"{tn}: {cx}: {a}")
        p.meta.update(tn=tn, b=b, sig=sig)
        ps.append(p)
    def more(b0, tn, tag):
        p = Prog(prog(tn, b0, "self"), tag=tag)
        p.meta.update(tn=tn, b=b0, sig="self")
        ps.append(p)

    def pats(c):
        tn = c.pick("type", list(TYPES), free=True)
        kind = c.pick("kind", ["const", "self", "irref"], free=True)
        w, v = c.pick("wrap", PAT_WRAP, free=True)
        if kind == "const":
            if "T: " in TYPES[tn]["g"] or tn == "const":
                raise core.Prune  # a constant of a generic type is not a pattern
            leaf = c.pick("leaf", CONST_LEAF if th or tn == "plain" or w in ("$P", "W { v: $P, .. }") else CONST_LEAF[:2], free=True)
            val = "3u32"
        else:
            leaves = (SELF_LEAF if kind == "self" else IRREF_LEAF)[tn]
            if not leaves:
                raise core.Prune
            leaf = c.pick("leaf", leaves, free=True)
            val = "&*self"
        if w.startswith(("&$P", "_x @ $P")) and (".." in leaf and "{" not in leaf and "(" not in leaf):
            raise core.Prune
        if w.startswith("[") and leaf.startswith("..="):
            raise core.Prune  # a half-open range in a slice pattern is a parse error in syn
        if kind == "irref" and any(k in w for k in ("Some", "None", "Ok", "En", ", ..]", "[.., ", "1")):
            raise core.Prune
        pos = c.pick("position", (IRREF_POS if kind == "irref" else PAT_POS) if th or tn in ("generic", "plain") or w in ("$P", "W { v: $P, .. }") else (IRREF_POS if kind == "irref" else PAT_POS)[::3], free=True)
        if "|" in w and "(|" in pos:
            raise core.Prune
        return tn, pos.replace("$V", v.replace("$V", val)).replace("$P", w.replace("$P", leaf))

    for tn, e in ctx.explore(pats):
        more(f"let r: u32 = {e}; mcrt::note(r.to_string());", tn, f"pattern: {tn}: {e}")

    def tys(c):
        tn = c.pick("type", list(TYPES), free=True)
        f = c.pick("form", TY_FORM, free=True)
        pos = c.pick("position", TY_POS if th or tn in ("generic", "plain") else TY_POS[::5], free=True)
        if "!" in pos and "fn" in f:
            raise core.Prune
        return tn, pos.replace("$T", f)

    for tn, e in ctx.explore(tys):
        more(f"let r: u32 = {e}; mcrt::note(r.to_string());", tn, f"type: {tn}: {e}")
    def idents(c):
        tn = c.pick("type", ["generic", "plain", "enum"] if th else ["generic", "plain"], free=True)
        i = c.pick("ident", IDENTS, free=True)
        pos = c.pick("position", ID_POS, free=True)
        return tn, pos.replace("$$I", "$i") .replace("$I", i)

    for tn, e in ctx.explore(idents):
        more(f"let r: u32 = {e}; mcrt::note(r.to_string());", tn, f"ident: {tn}: {e}")
    def frags(c):
        tn = c.pick("type", list(TYPES) if th else ["generic", "plain", "enum", "lifetime"], free=True)
        k = c.pick("kind", list(FRAG), free=True)
        x = c.pick("value", FRAG[k][0], free=True)
        cx = c.pick("context", FRAG[k][1], free=True)
        if ("fn" in x.split() or "macro_rules" in cx) and "fn" in cx:
            raise core.Prune
        if k.startswith("pat") and tn == "enum" and "Self {" in x:
            raise core.Prune
        return tn, k, x, cx

    for tn, k, x, cx in ctx.explore(frags):
        p = Prog(fragprog(tn, k, x, cx), tag=f"fragment: {tn}: {k} {x}: {cx}")
        p.meta.update(tn=tn, b="", sig="", frag=(tn, k, x, cx))
        ps.append(p)
    # text that only looks like code
    for tn in TYPES:
        for e in ("{ assert_eq!(self.m(), self.m(), \"fn self Self::K {}\", Self::K); 3 }", "vec![self.m(), \"fn\".len() as u32, 'f' as u32, b\"self\".len() as u32, r#\"fn Self\"#.len() as u32].iter().sum::<u32>()", "{ /* fn self */ vec![/* fn */ self.m()][0] }",
                  "{ let x = vec![self.m()]; 'fn_: loop { break 'fn_; } x[0] }", "concat!(\"fn \", \"self\").len() as u32 + vec![self.m()][0]", "vec![stringify!(a b).len() as u32, self.m()][1]", "vec![self.m() + line!() * 0 + column!() * 0][0]"):
            more(f"let r: u32 = {e}; mcrt::note(r.to_string());", tn, f"text: {tn}: {e}")
    # elided lifetime in the impl header
    for a in COMMON + [x for x in TYPES["lifetime"]["atoms"] if "'a" not in x]:
        for cx in (CTX[0], CTX[3], CTX[8], CTX[9]):
            if in_macro(cx) and outside(a):
                continue
            b = body(cx, a)
            p = Prog(prog("lifetime", b, "self", implg="<T: Clone>", implty="Ty<'_, T>"), tag=f"elided: {cx}: {a}")
            p.meta.update(tn="lifetime", b=b, sig="self", elided=True)
            ps.append(p)
    ps = core.dedup(ps)
    # 1. decide acceptance of the combined programs
    bad, _ = core.judge(ctx.deps(), ps, chunk=60, confirm_max=4000)
    ctx.part("bodies", len(ps))
    ctx.stats.states += len(ps)
    ctx.stats.transitions += len(ps)
    badset = set(id(p) for p in bad)
    # 2. where the combination is rejected, both halves must be rejected
    ref = []
    for p in bad:
        if p.meta.get("frag"):
            ref.append((p, Prog(fragprog(*p.meta["frag"], "ref"), "err", p.tag), Prog(fragprog(*p.meta["frag"], "pd"), "err", p.tag)))
            continue
        q = Prog(prog(p.meta["tn"], p.meta["b"], p.meta["sig"], "ref"), "err", p.tag)
        r = Prog(prog(p.meta["tn"], p.meta["b"], p.meta["sig"], "pd", *(("<T: Clone>", "Ty<'_, T>") if p.meta.get("elided") else ())), "err", p.tag)
        ref.append((p, q, r))
    core.judge(ctx.deps(), [q for _, q, _ in ref] + [r for _, _, r in ref], confirm_max=4000)
    nboth = 0
    for p, q, r in ref:
        if q.verdict == "ok":
            ctx.bad(p.tag, f"accepted as a method, rejected in pinned_drop: {r.diag or p.diag}", p.src, mode="judge", expect="ok")
        elif r.verdict == "ok":
            ctx.bad(p.tag, f"rejected as a method ({q.diag}), accepted in pinned_drop", r.src, mode="judge", expect="err")
        else:
            nboth += 1
    ctx.part("rejected-in-both", nboth)
    if nboth > len(ps) // 4:
        raise core.EngineError("too many invalid bodies: " + ref[0][1].diag)
    # 3. execute both
    good = [p for p in ps if id(p) not in badset]
    if not th:
        good = [p for p in good if p.meta["tn"] in ("generic", "enum") or any(p.tag.startswith(f"{t}: {CTX[0]}:") or p.tag.startswith(f"{t}: {CTX[8]}:") for t in TYPES) or p.tag.startswith(("elided", "text", "fragment"))]
    ctx.run(good, lambda p: f'{p.name}::go("{p.name}");', part="executed", chunk=80)

    # 4. bodies that must fail in both
    neg = []
    for tn in TYPES:
        t = TYPES[tn]
        bodies = ["self::unsafe_free();", "unsafe_free();", "(|| unsafe_free())();", "{ SM = 3; }", "let _ = *(&*self as *const Self);", "return 3;", "Self::NOPE;", "let x: Self = *self;",
                  "drop(self); self.m();", "break;", "self.nope();", "let y: u8 = Self::K;", "self.as_mut();" if True else "", "let f = self; let g = self;", "core::mem::take(&mut *self);", "3", "async {}.await;",
                  "(*(&*self as *const Self)).m();", "vec![unsafe_free()];", "core::ptr::read(&*self);", "core::mem::transmute::<u8, i8>(3);", "Pin::new_unchecked(&mut 3);", "self.get_unchecked_mut();",
                  "vec![core::ptr::read(&*self)];", "{ fn k() { unsafe_free(); } k() }", "let c = || { unsafe_free() };", "self.as_mut().get_unchecked_mut();", "let _ = core::str::from_utf8_unchecked(b\"x\");"]
        # a nested item is an item of its own: neither the receiver nor its type exists there
        for use in ("Self::K", "Self::stat(1)", "<Self>::K", "<Self as Tr2>::C", "core::mem::size_of::<Self>() as u32", "tgen::<Self>()", "self.m()", "{ let s: Option<&Self> = None; s.is_some() as u32 }", "vec![Self::K][0]" if tn != "x" else ""):
            if use.startswith("vec!"):
                continue  # macro tokens are rewritten wherever they are (documented heuristic)
            for item in ("const X: u32 = $U;", "static X: u32 = $U;", "fn f() -> u32 { $U } f();", "mod q { pub const X: u32 = $U; }", "const _: () = { let _ = $U; };", "struct Q; impl Q { fn f() -> u32 { $U } }" if "self." not in use and "size_of" not in use and "tgen" not in use and "Option" not in use else "fn f() { (|| $U)(); }", "enum Q { A = $U as isize }" if "Self" not in use else "fn f(x: [u8; $U as usize]) {}",
                         "fn f() { fn g() -> u32 { $U } }", "{ const X: u32 = $U; }", "(|| { const X: u32 = $U; })();", "if true { fn f() -> u32 { $U } }"):
                bodies.append(item.replace("$U", use))
        bodies += ["fn f(x: &Self) {}", "fn f() -> Option<Self> { None }", "fn f<X: Into<Self>>() {}", "fn f() where Self: Sized {}", "type Q = Self;", "const X: Option<Self> = None;", "static X: Option<fn(Self)> = None;", "use Self::K;", "fn f(x: [u8; Self::K as usize]) {}", "trait Q { fn f(x: &Self::K); }", "impl Self { fn q() {} }",
                   "impl Tr2 for Self { }", "struct Q(Box<Self>, u8); let q = Q(Box::new(self), 1);", "mod q { pub type Q = Self; }", "mod q { pub fn f(x: super::Self) {} }", "impl From<Self> for u8 { }", "fn f(self) {}", "fn f(&self) {}", "fn f(self: Pin<&mut Self>) {}", "union Q { a: Self, b: u8 }", "extern \"C\" { fn q(x: Self); }"]
        for b in bodies:
            for which in ("ref", "pd"):
                neg.append(Prog(prog(tn, b, "self", which), "err", f"negative/{which}/{b}"))
        for b in ("unsafe { unsafe_free() };", "unsafe { let _ = core::ptr::read(&0u8); }", "let _ = unsafe { Pin::new_unchecked(&mut 3) };", "(|| unsafe { unsafe_free() })();"):
            for which in ("ref", "pd"):
                neg.append(Prog(prog(tn, b, "self", which), "ok", f"unsafe-block/{which}/{b}"))
    cal = [p for p in neg if "/ref/" in p.tag]
    ctx.calibrate(cal)
    ctx.judge([p for p in neg if "/pd/" in p.tag], part="negative")

    # 5. implicit captures in format strings
    for tn in ("plain", "generic"):
        t = TYPES[tn]
        dbg = f"impl{t['g']} core::fmt::Debug for {t['ty']} {{ fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {{ Ok(()) }} }}\n"
        p = Prog(prog(tn, "let _ = format!(\"{self:?}\");", "self", "pd") + dbg, "ok", f"format-capture/{tn}")
        q = Prog(prog(tn, "let _ = format!(\"{self:?}\");", "self", "ref") + dbg, "ok", f"format-capture-ref/{tn}")
        ctx.calibrate([q])
        ctx.judge([p], part="format-capture")
