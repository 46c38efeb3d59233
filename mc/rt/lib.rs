//! Runtime side of the checker: tracked field values, an event log, the reference model of a
//! pinned value's life, and a stateless explorer that runs every operation history up to a
//! depth on the real (macro-generated) implementation and compares it with the model.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::marker::PhantomPinned;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;

// ---------------------------------------------------------------- event log
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ev {
    /// a tracked value's destructor ran at this address
    Drop(u32, usize),
    /// the user's pinned destructor ran on the value at this address and saw these fields
    Pd(usize, Vec<(u32, usize)>),
    /// free-form marker of generated programs
    Note(String),
}
thread_local! {
    static LOG: RefCell<Vec<Ev>> = const { RefCell::new(vec![]) };
    static NEXT: Cell<u32> = const { Cell::new(1) };
    static ARMED: Cell<u32> = const { Cell::new(0) };
    static LIVE: RefCell<BTreeMap<u32, u32>> = const { RefCell::new(BTreeMap::new()) };
}
static LEAN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Without event log: an interpreter watches memory instead (see explore_lean).
fn lean() -> bool {
    LEAN.load(std::sync::atomic::Ordering::Relaxed)
}
pub const PD: u32 = u32::MAX;
pub fn take_log() -> Vec<Ev> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
pub fn log(e: Ev) {
    LOG.with(|l| l.borrow_mut().push(e))
}
pub fn note(s: impl Into<String>) {
    log(Ev::Note(s.into()))
}
pub fn fresh() -> u32 {
    NEXT.with(|n| {
        let v = n.get();
        n.set(v + 1);
        v
    })
}
/// The destructor of the tracked value with this id panics (once).
pub fn arm(id: u32) {
    ARMED.with(|a| a.set(id))
}
fn fire(id: u32) {
    ARMED.with(|a| {
        if a.get() == id {
            a.set(0);
            panic!("armed destructor {id}");
        }
    })
}
/// ids alive (count > 0) right now
pub fn live() -> Vec<u32> {
    LIVE.with(|l| l.borrow().iter().filter(|(_, c)| **c > 0).map(|(i, _)| *i).collect())
}
pub fn reset() {
    take_log();
    NEXT.with(|n| n.set(1));
    arm(0);
    LIVE.with(|l| l.borrow_mut().clear());
}
pub fn init() {
    std::panic::set_hook(Box::new(|_| {}));
}
/// Runs f; true if it panicked.
pub fn panics<R>(f: impl FnOnce() -> R) -> bool {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => {
            drop(r);
            false
        }
        Err(_) => true,
    }
}
pub fn catch<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

// ---------------------------------------------------------------- tracked values
/// A value whose destructor is observable. Not Unpin, so pinning matters.
#[derive(Debug)]
pub struct D {
    id: u32,
    #[cfg(miri)]
    heap: Box<u32>,
    _p: PhantomPinned,
}
impl D {
    pub fn new(id: u32) -> D {
        if lean() {
            return D {
                id,
                #[cfg(miri)]
                heap: Box::new(id),
                _p: PhantomPinned,
            };
        }
        LIVE.with(|l| *l.borrow_mut().entry(id).or_insert(0) += 1);
        D {
            id,
            #[cfg(miri)]
            heap: Box::new(id),
            _p: PhantomPinned,
        }
    }
    pub fn id(&self) -> u32 {
        #[cfg(miri)]
        assert_eq!(*self.heap, self.id);
        self.id
    }
}
impl Drop for D {
    fn drop(&mut self) {
        let id = self.id();
        if lean() {
            if POINTS.load(std::sync::atomic::Ordering::Relaxed) {
                point();
            }
            return fire(id);
        }
        LIVE.with(|l| {
            let mut l = l.borrow_mut();
            let c = l.entry(id).or_insert(0);
            *c = c.wrapping_sub(1);
        });
        log(Ev::Drop(id, self as *const D as usize));
        fire(id);
        fire_at();
    }
}
/// The same, but Unpin.
#[derive(Debug)]
pub struct U(pub D);
impl Unpin for U {}
#[derive(Debug)]
#[repr(align(32))]
pub struct A32(pub D);
#[derive(Debug)]
pub struct Odd(pub u8, pub D);
#[derive(Debug)]
pub struct Wr<'a, T>(pub T, pub std::marker::PhantomData<&'a ()>);

/// Field types the explorer can create, identify and locate.
pub trait Fld {
    fn mk(id: u32) -> Self
    where
        Self: Sized;
    fn d(&self) -> &D;
    fn id(&self) -> u32 {
        self.d().id()
    }
    /// where the tracked destructor will run
    fn daddr(&self) -> usize {
        self.d() as *const D as usize
    }
    /// called when the field is reached through a pinned entry
    fn on_pinned(&self) {}
    /// where the field itself is
    fn addr(&self) -> usize {
        self as *const Self as *const u8 as usize
    }
}
macro_rules! fld {
    ([$($g:tt)*] $t:ty, |$id:ident| $mk:expr, |$s:ident| $d:expr) => {
        impl<$($g)*> Fld for $t {
            fn mk($id: u32) -> Self { $mk }
            fn d(&self) -> &D { let $s = self; $d }
        }
    };
}
fld!([] D, |id| D::new(id), |s| s);
fld!([] U, |id| U(D::new(id)), |s| &s.0);
fld!([] A32, |id| A32(D::new(id)), |s| &s.0);
fld!([] Odd, |id| Odd(7, D::new(id)), |s| &s.1);
fld!([T: Fld] Box<T>, |id| Box::new(T::mk(id)), |s| (**s).d());
fld!([T: Fld] Option<T>, |id| Some(T::mk(id)), |s| s.as_ref().unwrap().d());
fld!([T: Fld] (T,), |id| (T::mk(id),), |s| s.0.d());
fld!([T: Fld] (u8, T), |id| (3, T::mk(id)), |s| s.1.d());
fld!([T: Fld] [T; 1], |id| [T::mk(id)], |s| s[0].d());
fld!(['a, T: Fld] Wr<'a, T>, |id| Wr(T::mk(id), std::marker::PhantomData), |s| s.0.d());
fld!([T: Fld] Pin<Box<T>>, |id| Box::pin(T::mk(id)), |s| (**s).d());

/// An address-sensitive value: once reached through a pinned entry it remembers where it is and
/// relies (as a pinned self-referential value may) on never being moved until its destructor ran.
#[derive(Debug)]
pub struct Reg {
    d: D,
    at: Cell<*const D>,
}
impl Reg {
    fn check(&self) {
        let p = self.at.get();
        if !p.is_null() {
            let id = unsafe { (*p).id };
            if p as usize != &self.d as *const D as usize || id != self.d.id {
                note(format!("pinned value {} was moved", self.d.id));
            }
        }
    }
}
impl Drop for Reg {
    fn drop(&mut self) {
        self.check()
    }
}
impl Fld for Reg {
    fn mk(id: u32) -> Self {
        Reg { d: D::new(id), at: Cell::new(std::ptr::null()) }
    }
    fn d(&self) -> &D {
        self.check();
        &self.d
    }
    fn on_pinned(&self) {
        self.check();
        self.at.set(&self.d)
    }
}

// ---------------------------------------------------------------- exact types of projected entries
pub trait IsPinMut<F: ?Sized> {
    fn set_fld(&mut self, f: F)
    where
        F: Sized;
    fn get(&self) -> &F;
}
impl<F: ?Sized> IsPinMut<F> for Pin<&mut F> {
    fn set_fld(&mut self, f: F)
    where
        F: Sized,
    {
        self.as_mut().set(f)
    }
    fn get(&self) -> &F {
        self
    }
}
pub trait IsMut<F: ?Sized> {
    fn set_fld(&mut self, f: F)
    where
        F: Sized;
    fn get(&self) -> &F;
}
impl<F: ?Sized> IsMut<F> for &mut F {
    fn set_fld(&mut self, f: F)
    where
        F: Sized,
    {
        **self = f
    }
    fn get(&self) -> &F {
        self
    }
}
pub trait IsPinRef<F: ?Sized> {
    fn get(&self) -> &F;
}
impl<F: ?Sized> IsPinRef<F> for Pin<&F> {
    fn get(&self) -> &F {
        self
    }
}
pub trait IsRef<F: ?Sized> {
    fn get(&self) -> &F;
}
impl<F: ?Sized> IsRef<F> for &F {
    fn get(&self) -> &F {
        self
    }
}
pub trait IsPhantom<F: ?Sized> {}
impl<F: ?Sized> IsPhantom<F> for std::marker::PhantomData<F> {}
pub trait Is<F> {
    fn into_f(self) -> F;
}
impl<F> Is<F> for F {
    fn into_f(self) -> F {
        self
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Seen {
    pub id: u32,
    pub addr: usize,
    pub daddr: usize,
}
pub fn see<F: Fld + ?Sized>(f: &F) -> Seen {
    Seen { id: f.id(), addr: f.addr(), daddr: f.daddr() }
}
pub fn pm<F: Fld + ?Sized, X: IsPinMut<F>>(x: &X) -> Seen {
    x.get().on_pinned();
    see(x.get())
}
pub fn um<F: Fld + ?Sized, X: IsMut<F>>(x: &X) -> Seen {
    see(x.get())
}
pub fn pr<F: Fld + ?Sized, X: IsPinRef<F>>(x: &X) -> Seen {
    x.get().on_pinned();
    see(x.get())
}
pub fn ur<F: Fld + ?Sized, X: IsRef<F>>(x: &X) -> Seen {
    see(x.get())
}
pub fn set_pm<F: Fld, X: IsPinMut<F>>(x: &mut X, id: u32) {
    x.set_fld(F::mk(id))
}
pub fn set_um<F: Fld, X: IsMut<F>>(x: &mut X, id: u32) {
    x.set_fld(F::mk(id))
}
pub fn own_p<F: ?Sized, X: IsPhantom<F>>(_: X) -> Option<Box<dyn Fld>> {
    None
}
pub fn own_u<F: Fld + 'static, X: Is<F>>(x: X) -> Option<Box<dyn Fld>> {
    Some(Box::new(x.into_f()))
}
// exact-type assertions without Fld
pub fn ty_pm<F: ?Sized, X: IsPinMut<F>>(_: X) {}
pub fn ty_um<F: ?Sized, X: IsMut<F>>(_: X) {}
pub fn ty_pr<F: ?Sized, X: IsPinRef<F>>(_: X) {}
pub fn ty_ur<F: ?Sized, X: IsRef<F>>(_: X) {}
pub fn ty_own_p<F: ?Sized, X: IsPhantom<F>>(_: X) {}
pub fn ty_own_u<F, X: Is<F>>(_: X) {}

#[derive(Clone, Debug, PartialEq)]
pub struct View {
    pub variant: usize,
    pub fields: Vec<Seen>,
}
pub type Owned = (usize, Vec<Option<Box<dyn Fld>>>);

/// The generated adapter between one annotated type and the explorer.
pub trait Subject: Sized {
    /// per variant: which fields are pinned
    const META: &'static [&'static [bool]];
    const PINNED_DROP: bool = false;
    fn make(v: usize) -> (Self, Vec<u32>);
    /// direct (non-projected) observation
    fn raw(&self) -> View;
    fn proj(self: Pin<&mut Self>) -> Option<View> {
        None
    }
    fn proj_ref(self: Pin<&Self>) -> Option<View> {
        None
    }
    /// overwrite field i through the projection; false if the type has no projection
    fn write(self: Pin<&mut Self>, _i: usize, _id: u32) -> bool {
        false
    }
    fn replace(self: Pin<&mut Self>, new: Self) -> Result<Owned, Self> {
        Err(new)
    }
    const CAN_PROJ: bool;
    const CAN_REF: bool;
    const CAN_REPLACE: bool;
}
/// Called by generated pinned destructors.
pub fn pdrop(addr: usize, v: View) {
    if lean() {
        return fire(PD);
    }
    log(Ev::Pd(addr, v.fields.iter().map(|s| (s.id, s.addr)).collect()));
    fire(PD);
}

// ---------------------------------------------------------------- reference model + explorer
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Proj,
    Ref,
    Write(usize),
    /// Pin::set with a fresh value of the variant; the optional index is the destructor that panics
    Set(usize, Option<usize>),
    Replace(usize, Option<usize>),
    /// final drop
    End(Option<usize>),
}
#[derive(Default, Clone, Copy)]
pub struct Totals {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
}
struct Model {
    variant: usize,
    ids: Vec<u32>,
}
struct Fail(String);

/// which destructors can be made to panic when the whole value is dropped: fields, then PD
fn panic_points<S: Subject>(v: usize) -> Vec<Option<usize>> {
    let mut o = vec![None];
    for i in 0..S::META[v].len() {
        o.push(Some(i));
    }
    if S::PINNED_DROP {
        o.push(Some(usize::MAX));
    }
    o
}
fn ops<S: Subject>(v: usize, panic: bool) -> Vec<Op> {
    let mut o = vec![];
    if S::CAN_PROJ {
        o.push(Op::Proj);
    }
    if S::CAN_REF {
        o.push(Op::Ref);
    }
    if S::CAN_PROJ {
        for i in 0..S::META[v].len() {
            o.push(Op::Write(i));
        }
    }
    for t in 0..S::META.len() {
        o.push(Op::Set(t, None));
    }
    if panic {
        // which variant comes next is independent of which destructor panics
        for p in panic_points::<S>(v).into_iter().skip(1) {
            o.push(Op::Set((v + 1) % S::META.len(), p));
        }
    }
    if S::CAN_REPLACE {
        for t in 0..S::META.len() {
            o.push(Op::Replace(t, None));
        }
        if panic {
            for (i, p) in S::META[v].iter().enumerate() {
                if *p {
                    for t in 0..S::META.len() {
                        o.push(Op::Replace(t, Some(i)));
                    }
                }
            }
        }
    }
    o
}
fn ensure(c: bool, m: impl FnOnce() -> String) -> Result<(), Fail> {
    if c {
        Ok(())
    } else {
        Err(Fail(m()))
    }
}
fn check_view<S: Subject>(m: &Model, home: &View, got: &View, what: &str) -> Result<(), Fail> {
    ensure(got.variant == m.variant, || format!("{what}: variant {} instead of {}", got.variant, m.variant))?;
    ensure(got.fields.len() == m.ids.len(), || format!("{what}: {} fields instead of {}", got.fields.len(), m.ids.len()))?;
    for (i, f) in got.fields.iter().enumerate() {
        ensure(f.id == m.ids[i], || format!("{what}: field {i} is value {} instead of {}", f.id, m.ids[i]))?;
        ensure(f.addr == home.fields[i].addr, || format!("{what}: field {i} is not at its own address"))?;
    }
    Ok(())
}
/// events of dropping the whole value in place
fn drop_events<S: Subject>(home: &View, addr: usize) -> Vec<Ev> {
    let mut e = vec![];
    if S::PINNED_DROP {
        e.push(Ev::Pd(addr, home.fields.iter().map(|f| (f.id, f.addr)).collect()));
    }
    for f in &home.fields {
        e.push(Ev::Drop(f.id, f.daddr));
    }
    e
}
fn arm_for(home: &View, p: Option<usize>) {
    match p {
        None => arm(0),
        Some(usize::MAX) => arm(PD),
        Some(i) => arm(home.fields[i].id),
    }
}
fn ids_of(ev: &[Ev]) -> Vec<u32> {
    let mut v: Vec<u32> = ev.iter().filter_map(|e| if let Ev::Drop(i, _) = e { Some(*i) } else { None }).collect();
    v.sort();
    v
}

fn run_trace<S: Subject>(v0: usize, trace: &[Op], end: Option<usize>, tot: &mut Totals) -> Result<(), Fail> {
    reset();
    let (val, ids) = S::make(v0);
    let mut b: Pin<Box<S>> = Box::pin(val);
    let addr = &*b as *const S as usize;
    let mut m = Model { variant: v0, ids };
    ensure(take_log().is_empty(), || "construction dropped something".into())?;
    for op in trace {
        let home = b.raw();
        check_view::<S>(&m, &home, &home, "direct access")?;
        tot.transitions += 1;
        match op {
            Op::Proj => {
                let v = b.as_mut().proj().unwrap();
                check_view::<S>(&m, &home, &v, "project")?;
                ensure(take_log().is_empty(), || "project ran a destructor".into())?;
            }
            Op::Ref => {
                let v = b.as_ref().proj_ref().unwrap();
                check_view::<S>(&m, &home, &v, "project_ref")?;
                ensure(take_log().is_empty(), || "project_ref ran a destructor".into())?;
            }
            Op::Write(i) => {
                let id = fresh();
                b.as_mut().write(*i, id);
                let log = take_log();
                let want = vec![Ev::Drop(m.ids[*i], home.fields[*i].daddr)];
                ensure(log == want, || format!("write through entry {i}: events {log:?}, expected {want:?}"))?;
                m.ids[*i] = id;
            }
            Op::Set(t, p) => {
                let (new, ids) = S::make(*t);
                arm_for(&home, *p);
                let mut slot = Some(new);
                let pan = panics(|| b.as_mut().set(slot.take().unwrap()));
                arm(0);
                let log = take_log();
                let want = drop_events::<S>(&home, addr);
                ensure(pan == p.is_some(), || format!("Pin::set panicked={pan}"))?;
                ensure(log == want, || format!("Pin::set: events {log:?}, expected {want:?}"))?;
                m = Model { variant: *t, ids };
            }
            Op::Replace(t, p) => {
                let (new, ids) = S::make(*t);
                arm_for(&home, *p);
                let mut slot = Some(new);
                let r = catch(|| b.as_mut().replace(slot.take().unwrap()));
                arm(0);
                let log = take_log();
                let pinned = S::META[m.variant];
                let want: Vec<Ev> = (0..pinned.len())
                    .filter(|i| pinned[*i])
                    .map(|i| Ev::Drop(home.fields[i].id, home.fields[i].daddr))
                    .collect();
                match r {
                    Some(Err(_)) => return Err(Fail("no project_replace".into())),
                    Some(Ok((ov, of))) => {
                        ensure(p.is_none(), || "project_replace swallowed a panic".into())?;
                        ensure(log == want, || format!("project_replace: events {log:?}, expected {want:?}"))?;
                        ensure(ov == m.variant, || format!("project_replace returned variant {ov}, was {}", m.variant))?;
                        ensure(of.len() == pinned.len(), || "project_replace lost fields".into())?;
                        for (i, f) in of.iter().enumerate() {
                            let got = f.as_ref().map(|f| f.id());
                            let exp = if pinned[i] { None } else { Some(m.ids[i]) };
                            ensure(got == exp, || format!("project_replace: field {i} came out as {got:?}, expected {exp:?}"))?;
                        }
                        // dropping the returned value later must drop exactly the moved-out fields
                        drop(of);
                        let got = ids_of(&take_log());
                        let exp: Vec<u32> = (0..pinned.len()).filter(|i| !pinned[*i]).map(|i| m.ids[i]).collect();
                        let mut exp2 = exp.clone();
                        exp2.sort();
                        ensure(got == exp2, || format!("dropping the owned projection dropped {got:?}, expected {exp2:?}"))?;
                    }
                    None => {
                        ensure(p.is_some(), || "project_replace panicked on its own".into())?;
                        let pl: Vec<Ev> = log.iter().filter(|e| want.contains(e)).cloned().collect();
                        ensure(pl == want, || format!("project_replace (panicking): pinned events {log:?}, expected {want:?}"))?;
                        let mut exp = m.ids.clone();
                        exp.sort();
                        let got = ids_of(&log);
                        ensure(got == exp, || format!("project_replace (panicking): dropped {got:?}, expected every old field once {exp:?}"))?;
                    }
                }
                m = Model { variant: *t, ids };
            }
            Op::End(_) => unreachable!(),
        }
        ensure(&*b as *const S as usize == addr, || "value moved".into())?;
        let now = b.raw();
        check_view::<S>(&m, &now, &now, "after the operation")?;
        let mut alive = live();
        alive.sort();
        let mut exp = m.ids.clone();
        exp.sort();
        ensure(alive == exp, || format!("values alive {alive:?}, expected {exp:?}"))?;
    }
    let home = b.raw();
    arm_for(&home, end);
    tot.transitions += 1;
    let pan = panics(move || drop(b));
    arm(0);
    ensure(pan == end.is_some(), || format!("final drop panicked={pan}"))?;
    let log = take_log();
    let want = drop_events::<S>(&home, addr);
    ensure(log == want, || format!("final drop: events {log:?}, expected {want:?}"))?;
    ensure(live().is_empty(), || format!("leaked {:?}", live()))?;
    tot.traces += 1;
    Ok(())
}

fn dfs<S: Subject>(v0: usize, cur: usize, trace: &mut Vec<Op>, depth: usize, panic: bool, tot: &mut Totals, fails: &mut Vec<String>) {
    tot.states += 1;
    if fails.len() >= 3 {
        return;
    }
    if depth == 0 {
        let ends = if panic { panic_points::<S>(cur) } else { vec![None] };
        for e in ends {
            tot.states += 1;
            let r = catch(|| {
                let mut t = *tot;
                let r = run_trace::<S>(v0, trace, e, &mut t);
                (r, t)
            });
            match r {
                Some((r, t)) => {
                    *tot = t;
                    if let Err(Fail(m)) = r {
                        fails.push(format!("start variant {v0}, history {:?}, {:?}: {m}", trace, Op::End(e)));
                        return;
                    }
                }
                None => {
                    arm(0);
                    fails.push(format!("start variant {v0}, history {:?}, {:?}: unexpected panic", trace, Op::End(e)));
                    return;
                }
            }
        }
        return;
    }
    for op in ops::<S>(cur, panic) {
        let next = match op {
            Op::Set(t, _) | Op::Replace(t, _) => t,
            _ => cur,
        };
        trace.push(op);
        dfs::<S>(v0, next, trace, depth - 1, panic, tot, fails);
        trace.pop();
    }
}
/// Every history of exactly `depth` operations (all shorter ones are its prefixes) from every
/// initial variant, with every destructor panic point; prints totals and failures.
pub fn explore<S: Subject>(name: &str, depth: usize, panic: bool) {
    println!("BEGIN {name}");
    let mut tot = Totals::default();
    let mut fails = vec![];
    for v in 0..S::META.len() {
        dfs::<S>(v, v, &mut vec![], depth, panic, &mut tot, &mut fails);
    }
    println!("STATS {} {} {}", tot.states, tot.transitions, tot.traces);
    for f in fails {
        println!("FAIL {}", f.replace('\n', " "));
    }
    println!("END {name}");
}
/// The same histories under an interpreter: no event log, only values; the interpreter itself
/// detects invalid accesses, aliasing, double frees and leaks.
pub fn explore_lean<S: Subject>(name: &str, depth: usize, panic: bool) {
    println!("BEGIN {name}");
    LEAN.store(true, std::sync::atomic::Ordering::Relaxed);
    let mut tot = Totals::default();
    let mut fail = None;
    for v in 0..S::META.len() {
        dfs_lean::<S>(v, v, &mut vec![], depth, panic, &mut tot, &mut fail);
    }
    LEAN.store(false, std::sync::atomic::Ordering::Relaxed);
    println!("STATS {} {} {}", tot.states, tot.transitions, tot.traces);
    if let Some(f) = fail {
        println!("FAIL {}", f.replace('\n', " "));
    }
    println!("END {name}");
}
fn dfs_lean<S: Subject>(v0: usize, cur: usize, trace: &mut Vec<Op>, depth: usize, panic: bool, tot: &mut Totals, fail: &mut Option<String>) {
    tot.states += 1;
    if fail.is_some() {
        return;
    }
    if depth == 0 {
        // the panic points of the final drop are those of Set; one per history suffices here
        let ends = if panic && trace.len() <= 1 { panic_points::<S>(cur) } else { vec![None] };
        for e in ends {
            tot.states += 1;
            tot.transitions += trace.len() as u64 + 1;
            tot.traces += 1;
            if let Err(Fail(m)) = trace_lean::<S>(v0, trace, e) {
                *fail = Some(format!("start variant {v0}, history {:?}, {:?}: {m}", trace, Op::End(e)));
            }
        }
        return;
    }
    for op in ops::<S>(cur, panic) {
        let next = match op {
            Op::Set(t, _) | Op::Replace(t, _) => t,
            _ => cur,
        };
        trace.push(op);
        dfs_lean::<S>(v0, next, trace, depth - 1, panic, tot, fail);
        trace.pop();
    }
}
fn same(v: &View, m: &Model) -> Result<(), Fail> {
    let ok = v.variant == m.variant && v.fields.len() == m.ids.len() && v.fields.iter().zip(&m.ids).all(|(f, i)| f.id == *i);
    ensure(ok, || format!("saw {v:?}, expected variant {} {:?}", m.variant, m.ids))
}
fn trace_lean<S: Subject>(v0: usize, trace: &[Op], end: Option<usize>) -> Result<(), Fail> {
    NEXT.with(|n| n.set(1));
    let (val, ids) = S::make(v0);
    let mut b: Pin<Box<S>> = Box::pin(val);
    let mut m = Model { variant: v0, ids };
    // what project_replace handed out stays alive to the end
    let mut kept: Vec<(Option<Box<dyn Fld>>, u32)> = vec![];
    let armed = |m: &Model, p: Option<usize>| match p {
        None => {}
        Some(usize::MAX) => arm(PD),
        Some(i) => arm(m.ids[i]),
    };
    for op in trace {
        match op {
            Op::Proj => same(&b.as_mut().proj().unwrap(), &m)?,
            Op::Ref => same(&b.as_ref().proj_ref().unwrap(), &m)?,
            Op::Write(i) => {
                let id = fresh();
                b.as_mut().write(*i, id);
                m.ids[*i] = id;
            }
            Op::Set(t, p) => {
                let (new, ids) = S::make(*t);
                armed(&m, *p);
                if p.is_none() {
                    b.as_mut().set(new);
                } else {
                    ensure(panics(|| b.as_mut().set(new)), || "no panic".into())?;
                }
                m = Model { variant: *t, ids };
            }
            Op::Replace(t, p) => {
                let (new, ids) = S::make(*t);
                armed(&m, *p);
                if p.is_none() {
                    match b.as_mut().replace(new) {
                        Ok((_, of)) => {
                            ensure(of.len() == m.ids.len(), || "fields".into())?;
                            kept.extend(of.into_iter().zip(m.ids.iter().copied()));
                        }
                        Err(_) => return Err(Fail("no project_replace".into())),
                    }
                } else {
                    ensure(panics(|| b.as_mut().replace(new)), || "no panic".into())?;
                }
                m = Model { variant: *t, ids };
            }
            Op::End(_) => unreachable!(),
        }
    }
    same(&b.raw(), &m)?;
    armed(&m, end);
    if end.is_none() {
        drop(b);
    } else {
        ensure(panics(move || drop(b)), || "no panic".into())?;
    }
    for (f, id) in kept {
        if let Some(f) = f {
            ensure(f.id() == id, || format!("a field moved out by project_replace is value {} instead of {id}", f.id()))?;
        }
    }
    Ok(())
}
/// Runs a hand-rolled check of a generated program.
pub fn single(name: &str, f: impl FnOnce() -> Result<u64, String>) {
    println!("BEGIN {name}");
    reset();
    match catch(f) {
        Some(Ok(n)) => println!("STATS {n} {n} 1"),
        Some(Err(m)) => println!("FAIL {}", m.replace('\n', " ")),
        None => println!("FAIL unexpected panic"),
    }
    println!("END {name}");
}

/// A hand-rolled check under an interpreter.
pub fn lean_single(name: &str, f: impl FnOnce() -> Result<u64, String>) {
    LEAN.store(true, std::sync::atomic::Ordering::Relaxed);
    single(name, f);
    LEAN.store(false, std::sync::atomic::Ordering::Relaxed);
}
thread_local! {
    static COUNTDOWN: Cell<usize> = const { Cell::new(0) };
    static PASSED: Cell<usize> = const { Cell::new(0) };
}
/// A point at which the environment may choose to panic.
pub fn point() {
    PASSED.with(|c| c.set(c.get() + 1));
    COUNTDOWN.with(|c| {
        if c.get() > 0 {
            c.set(c.get() - 1);
            if c.get() == 0 && !std::thread::panicking() {
                panic!("point");
            }
        }
    })
}
/// Runs f without a panic and then once per destructor event with a panic there.
pub fn every_panic(name: &str, max: usize, f: impl Fn()) {
    lean_single(name, || {
        PASSED.with(|c| c.set(0));
        POINTS.store(true, std::sync::atomic::Ordering::Relaxed);
        if panics(&f) {
            return Err("panicked although no destructor did".into());
        }
        let n = PASSED.with(|c| c.get()).min(max);
        for k in 1..=n {
            COUNTDOWN.with(|c| c.set(k));
            panics(&f);
            COUNTDOWN.with(|c| c.set(0));
        }
        POINTS.store(false, std::sync::atomic::Ordering::Relaxed);
        Ok(n as u64 + 1)
    })
}
static POINTS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

// ---------------------------------------------------------------- trait probes
/// `is_unpin!(T)`: does the concrete type T implement Unpin?
#[macro_export]
macro_rules! probe {
    ($bound:path, $t:ty) => {{
        #[allow(dead_code)]
        struct Probe<T: ?::core::marker::Sized>(::core::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait No {
            const YES: ::core::primitive::bool = false;
        }
        impl<T: ?::core::marker::Sized> No for Probe<T> {}
        #[allow(dead_code)]
        impl<T: ?::core::marker::Sized + $bound> Probe<T> {
            const YES: ::core::primitive::bool = true;
        }
        <Probe<$t>>::YES
    }};
}
#[macro_export]
macro_rules! is_unpin {
    ($t:ty) => {
        $crate::probe!(::core::marker::Unpin, $t)
    };
}

// ---------------------------------------------------------------- types with a known Unpin status
#[macro_export]
macro_rules! ty { ($t:ty) => { $t }; () => { $crate::ut::PhantomPinned2 }; }
pub mod ut {
    #![allow(dead_code)]
    use core::marker::{PhantomData, PhantomPinned};
    pub struct UnpinTy; pub struct NotUnpin(PhantomPinned);
    pub mod m1 { pub struct X(u8); } pub mod m2 { pub struct X(core::marker::PhantomPinned); }
    pub trait Flip { type Out; type Same; }
    impl Flip for UnpinTy { type Out = NotUnpin; type Same = UnpinTy; }
    impl Flip for NotUnpin { type Out = UnpinTy; type Same = NotUnpin; }
    pub type Alias<X> = (X, u8); pub type Ign<X> = *const X; pub type Pinned = PhantomPinned;
    pub struct Wrap<X: ?Sized>(X); pub struct Always<X: ?Sized>(PhantomData<X>); impl<X: ?Sized> Unpin for Always<X> {}
    pub struct Never<X>(PhantomData<X>, PhantomPinned);
    pub enum En<X> { A(X), B } pub union Un<X: Copy> { x: X }
    pub struct Cst<const N: usize>(u8); impl Cst<0> { } pub struct CstN<const N: usize>(PhantomPinned); impl Unpin for CstN<1> {}
    pub trait Obj {} pub trait ObjUnpin: Unpin {}
    pub type PhantomPinned2 = PhantomPinned;
}

// ---------------------------------------------------------------- drop contexts (C07)
/// what a value's destruction must look like
#[derive(Clone, Debug)]
pub enum Step {
    /// pinned destructor (if the type has one) then these fields in order
    Val(Vec<u32>),
    /// a bare tracked value
    One(u32),
}
/// Compares the log with the expected destruction sequence, including that each destructor ran
/// on the fields where the pinned destructor saw them.
pub fn match_steps(log: &[Ev], want: &[Step], pd: bool) -> Result<(), String> {
    let mut it = log.iter();
    let err = |m: String| Err(format!("{m}; events {log:?}; expected {want:?}"));
    for s in want {
        match s {
            Step::One(i) => match it.next() {
                Some(Ev::Drop(j, _)) if j == i => {}
                e => return err(format!("expected drop of {i}, got {e:?}")),
            },
            Step::Val(ids) => {
                let mut at: Vec<usize> = vec![];
                if pd {
                    match it.next() {
                        Some(Ev::Pd(_, f)) if f.iter().map(|x| x.0).collect::<Vec<_>>() == *ids => {
                            at = f.iter().map(|x| x.1).collect();
                        }
                        e => return err(format!("expected the pinned destructor of {ids:?}, got {e:?}")),
                    }
                }
                for (k, i) in ids.iter().enumerate() {
                    match it.next() {
                        Some(Ev::Drop(j, a)) if j == i && (!pd || *a == at[k]) => {}
                        e => return err(format!("expected drop of {i} in place, got {e:?}")),
                    }
                }
            }
        }
    }
    match it.next() {
        None => Ok(()),
        e => err(format!("extra event {e:?}")),
    }
}
struct Never;
impl std::future::Future for Never {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        std::task::Poll::Pending
    }
}
fn poll_once<Fu: std::future::Future>(f: Pin<&mut Fu>) {
    let w = std::task::Waker::noop();
    let _ = f.poll(&mut std::task::Context::from_waker(w));
}
trait Dyn {}
impl<T> Dyn for T {}
type Mk<'a, S> = dyn FnMut() -> S + 'a;
type CtxFn<S> = (&'static str, fn(&mut Mk<'_, S>), fn(&[Vec<u32>]) -> Vec<Step>, bool);

fn all(v: &[Vec<u32>]) -> Vec<Step> {
    v.iter().cloned().map(Step::Val).collect()
}
fn rev(v: &[Vec<u32>]) -> Vec<Step> {
    v.iter().rev().cloned().map(Step::Val).collect()
}
fn none(_: &[Vec<u32>]) -> Vec<Step> {
    vec![]
}
fn early<S>(m: &mut Mk<'_, S>, c: bool) -> Option<()> {
    let _a = m();
    let n: Option<()> = if c { None } else { Some(()) };
    n?;
    let _b = m();
    Some(())
}
/// (name, code, destruction sequence in terms of creation order, may a destructor panic here)
fn contexts<S: Subject + 'static>() -> Vec<CtxFn<S>> {
    vec![
        ("scope", |m| { let _x = m(); }, all, true),
        ("two locals", |m| { let _x = m(); let _y = m(); }, rev, true),
        ("drop()", |m| { let x = m(); drop(x); }, all, true),
        ("moved then drop", |m| { let x = m(); let y = x; let z = (y, 1); drop(z); }, all, true),
        ("temporary", |m| { m(); }, all, true),
        ("underscore", |m| { let _ = m(); }, all, true),
        ("shadow", |m| { let x = m(); let x = (x, m()); drop(x); }, all, true),
        ("Box", |m| { drop(Box::new(m())); }, all, true),
        ("Box::pin", |m| { drop(Box::pin(m())); }, all, true),
        ("Rc", |m| { let a = std::rc::Rc::new(m()); let b = a.clone(); drop(a); drop(b); }, all, true),
        ("Arc::pin", |m| { let a = std::sync::Arc::pin(m()); let _b = a.clone(); }, all, true),
        ("Box<dyn>", |m| { let b: Box<dyn Dyn> = Box::new(m()); drop(b); }, all, true),
        ("Pin<Box<dyn>>", |m| { let b: Pin<Box<dyn Dyn>> = Box::pin(m()); drop(b); }, all, true),
        ("Vec", |m| { drop(vec![m(), m()]); }, all, true),
        ("Vec clear", |m| { let mut v = vec![m(), m()]; v.clear(); }, all, true),
        ("Vec truncate", |m| { let mut v = vec![m(), m()]; v.truncate(1); drop(v); }, rev, false),
        ("Vec pop", |m| { let mut v = vec![m(), m()]; v.pop(); drop(v); }, rev, false),
        ("Vec remove", |m| { let mut v = vec![m(), m()]; v.remove(0); drop(v); }, all, false),
        ("Vec drain", |m| { let mut v = vec![m(), m()]; v.drain(..); }, all, false),
        ("Vec into_iter", |m| { let v = vec![m(), m()]; for x in v { drop(x); } }, all, true),
        ("Vec grow", |m| { let mut v = Vec::with_capacity(1); v.push(m()); v.push(m()); v.reserve(64); drop(v); }, all, true),
        ("slice", |m| { let b: Box<[S]> = vec![m(), m()].into_boxed_slice(); drop(b); }, all, true),
        ("array", |m| { drop([m(), m()]); }, all, true),
        ("tuple", |m| { drop((m(), m())); }, all, true),
        ("tuple partial move", |m| { let t = (m(), m()); drop(t.1); drop(t.0); }, rev, false),
        ("tuple pattern", |m| { let (_a, _) = (m(), m()); }, rev, false),
        ("Option", |m| { let mut o = Some(m()); o = None; drop(o); }, all, false),
        ("Option take", |m| { let mut o = Some(m()); o.take(); }, all, true),
        ("Option replace", |m| { let mut o = Some(m()); let n = m(); o.replace(n); }, all, false),
        ("Option pinned", |m| { let mut o = Box::pin(Some(m())); o.as_mut().set(None); }, all, false),
        ("mem::replace", |m| { let mut x = m(); let n = m(); let old = std::mem::replace(&mut x, n); drop(old); }, all, true),
        ("mem::swap", |m| { let mut x = m(); let mut y = m(); std::mem::swap(&mut x, &mut y); }, all, true),
        ("assign", |m| { let mut x = m(); x = m(); drop(x); }, all, false),
        ("Pin::set", |m| { let mut x = Box::pin(m()); let n = m(); x.as_mut().set(n); }, all, true),
        ("pin!", |m| { let mut x = std::pin::pin!(m()); let n = m(); x.set(n); }, all, true),
        ("ManuallyDrop", |m| { let mut x = std::mem::ManuallyDrop::new(m()); unsafe { std::mem::ManuallyDrop::drop(&mut x) } }, all, true),
        ("drop_in_place", |m| { let mut x = std::mem::MaybeUninit::new(m()); unsafe { x.as_mut_ptr().drop_in_place() } }, all, true),
        ("forget", |m| { std::mem::forget(m()); }, none, false),
        ("leak", |m| { let _ = std::mem::ManuallyDrop::new(m()); let _ = Box::leak(Box::new(m())); }, none, false),
        ("unwind", |m| { let _x = m(); panic!("outer"); }, all, false),
        ("unwind two", |m| { let _x = m(); let _y = Box::pin(m()); panic!("outer"); }, rev, false),
        ("unwind through call", |m| { fn go<S>(_s: S) { panic!("outer") } go(m()); }, all, false),
        ("unwind argument", |m| { fn two<S>(_a: S, _b: S) {} let a = m(); two(a, panic!("outer")); }, all, false),
        ("closure", |m| { let x = m(); let c = move || { let _ = &x; }; c(); }, all, true),
        ("FnOnce", |m| { let x = m(); let c = move || drop(x); c(); }, all, true),
        ("FnOnce not called", |m| { let x = m(); let c: Box<dyn FnOnce()> = Box::new(move || drop(x)); drop(c); }, all, true),
        ("early return", |m| { let _ = early(m, true); }, all, true),
        ("no early return", |m| { let _ = early(m, false); }, rev, true),
        ("loop", |m| { for _ in 0..3 { let _x = m(); } }, all, true),
        ("break", |m| { loop { let _x = m(); break; } }, all, true),
        ("match", |m| { match m() { _x if true => {} _ => {} } }, all, true),
        ("RefCell", |m| { let c = std::cell::RefCell::new(m()); c.replace(m()); }, all, false),
        ("Mutex", |m| { let c = std::sync::Mutex::new(m()); drop(c); }, all, true),
        ("BTreeMap", |m| { let mut b = BTreeMap::new(); b.insert(1, m()); b.insert(2, m()); drop(b); }, all, true),
        ("VecDeque", |m| { let mut b = std::collections::VecDeque::new(); b.push_back(m()); b.push_back(m()); drop(b); }, all, true),
        ("future held", |m| { let x = m(); let mut f = Box::pin(async move { let y = x; Never.await; drop(y); }); poll_once(f.as_mut()); drop(f); }, all, true),
        ("future unpolled", |m| { let x = m(); let f = Box::pin(async move { let y = x; Never.await; drop(y); }); drop(f); }, all, true),
        ("OnceCell", |m| { let c = std::cell::OnceCell::new(); let _ = c.set(m()); let n = m(); let _ = c.set(n); }, rev, false),
    ]
}
/// Every drop context x start variant x panicking destructor of every created value.
pub fn drop_contexts<S: Subject + 'static>(name: &str) {
    println!("BEGIN {name}");
    let mut tot = Totals::default();
    let mut fails: Vec<String> = vec![];
    for (cname, code, want, can_panic) in contexts::<S>() {
        for v in 0..S::META.len() {
            // which created value, which destructor of it
            let mut plans: Vec<Option<(usize, usize)>> = vec![None];
            if can_panic {
                for k in 0..3usize {
                    // `v` is every value's variant except that values alternate (see below)
                    let vv = (v + k) % S::META.len();
                    for i in 0..S::META[vv].len() {
                        plans.push(Some((k, i)));
                    }
                    if S::PINNED_DROP {
                        plans.push(Some((k, usize::MAX)));
                    }
                }
            }
            for plan in plans {
                tot.states += 1;
                reset();
                let mut made: Vec<Vec<u32>> = vec![];
                let mut mk = || {
                    let (s, ids) = S::make((v + made.len()) % S::META.len());
                    made.push(ids);
                    if let Some((k, i)) = plan {
                        if k + 1 == made.len() {
                            let last = made.last().unwrap();
                            arm(if i == usize::MAX { PD } else { last[i] });
                        }
                    }
                    s
                };
                if let Some((_, usize::MAX)) = plan {
                    // PD is armed globally, so only the first destroyed value panics
                }
                let p = panics(|| code(&mut mk));
                let reached = plan.map_or(false, |(k, _)| k < made.len());
                arm(0);
                tot.transitions += 1;
                let log = take_log();
                let mut ok = true;
                if plan.is_some() && !reached {
                    continue; // this context does not create that many values
                }
                let mut w = want(&made);
                if plan.is_some() {
                    // a panic in the middle may keep later values from being created, or make
                    // the unwinding order differ from the normal one: compare per value
                    if !p {
                        fails.push(format!("{cname}, variant {v}, {plan:?}: destructor panic was lost"));
                    }
                    let mut vals: Vec<&Vec<u32>> = made.iter().collect();
                    vals.sort();
                    let total: usize = vals.iter().map(|x| x.len() + S::PINNED_DROP as usize).sum();
                    if log.len() != total {
                        fails.push(format!("{cname}, variant {v}, {plan:?}: {} events instead of {total}: {log:?}", log.len()));
                        ok = false;
                    }
                    // group the log: consecutive chunk per value
                    if ok {
                        let mut pos = 0;
                        let mut left: Vec<Vec<u32>> = made.clone();
                        while pos < log.len() {
                            let first = match &log[pos] {
                                Ev::Pd(_, f) => f.iter().map(|x| x.0).collect::<Vec<_>>(),
                                Ev::Drop(i, _) => left.iter().find(|l| l.first() == Some(i)).cloned().unwrap_or_default(),
                                _ => vec![],
                            };
                            let n = first.len() + S::PINNED_DROP as usize;
                            match left.iter().position(|l| *l == first) {
                                Some(ix) if pos + n <= log.len() => {
                                    if let Err(m) = match_steps(&log[pos..pos + n], &[Step::Val(first)], S::PINNED_DROP) {
                                        fails.push(format!("{cname}, variant {v}, {plan:?}: {m}"));
                                        break;
                                    }
                                    left.remove(ix);
                                    pos += n;
                                }
                                _ => {
                                    fails.push(format!("{cname}, variant {v}, {plan:?}: unexpected events {log:?}"));
                                    break;
                                }
                            }
                        }
                    }
                } else {
                    if p != cname.starts_with("unwind") {
                        fails.push(format!("{cname}, variant {v}: panicked={p}"));
                    }
                    // unit-like variants leave no trace without a pinned destructor
                    w.retain(|s| !matches!(s, Step::Val(x) if x.is_empty() && !S::PINNED_DROP));
                    if let Err(m) = match_steps(&log, &w, S::PINNED_DROP) {
                        fails.push(format!("{cname}, variant {v}: {m}"));
                    }
                }
                tot.traces += 1;
                if fails.len() > 3 {
                    break;
                }
            }
        }
    }
    println!("STATS {} {} {}", tot.states, tot.transitions, tot.traces);
    for f in fails {
        println!("FAIL {}", f.replace('\n', " "));
    }
    println!("END {name}");
}
thread_local! {
    static FIRE_AT: Cell<usize> = const { Cell::new(usize::MAX) };
}
/// generated destructors call this after logging: the k-th tracked event may be made to panic
pub fn log_fire() {
    fire_at()
}
fn fire_at() {
    let n = LOG.with(|l| l.borrow().len());
    if FIRE_AT.with(|f| f.get()) == n {
        FIRE_AT.with(|f| f.set(usize::MAX));
        panic!("event {n}");
    }
}
fn names(log: &[Ev]) -> Vec<String> {
    log.iter()
        .map(|e| match e {
            Ev::Drop(i, _) => format!("D{i}"),
            Ev::Pd(_, f) => format!("P{f:?}"),
            Ev::Note(s) => s.clone(),
        })
        .collect()
}
/// Runs the code once without and once per event with a panic in that event's destructor; the
/// multiset of events is always the same, and so is their order unless values are dropped by
/// unwinding frames.
pub fn all_panics(want: &[&str], unwinds: bool, code: impl Fn()) -> Result<u64, String> {
    let mut runs = 0;
    for k in 0..=(if unwinds { 0 } else { want.len() }) {
        reset();
        FIRE_AT.with(|f| f.set(if k == 0 { usize::MAX } else { k }));
        let p = panics(&code);
        FIRE_AT.with(|f| f.set(usize::MAX));
        runs += 1;
        let log = names(&take_log());
        if p != (k > 0 || unwinds) {
            return Err(format!("panic point {k}: panicked={p}, events {log:?}"));
        }
        if log != want {
            return Err(format!("panic point {k}: events {log:?}, expected {want:?}"));
        }
        if !live().is_empty() {
            return Err(format!("panic point {k}: leaked {:?}", live()));
        }
    }
    Ok(runs)
}
pub fn all_panics_min(want: &[&str], code: impl Fn()) -> Result<u64, String> {
    reset();
    code();
    let log = names(&take_log());
    if log != want {
        return Err(format!("events {log:?}, expected {want:?}"));
    }
    if !live().is_empty() {
        return Err(format!("leaked {:?}", live()));
    }
    Ok(1)
}

// ---------------------------------------------------------------- field kinds
/// Field types that differ in everything generated code could look at: size (zero, one, large),
/// alignment, drop glue, Copy, Unpin, validity.
pub trait Kind: 'static {
    fn mk(k: u32) -> Self;
    fn is(&self, k: u32) -> bool;
    fn events(k: u32) -> Vec<String>;
}
/// Zero-sized, with a destructor.
pub struct Z;
impl Drop for Z {
    fn drop(&mut self) {
        note("Z");
        fire_at();
    }
}
/// Zero-sized, over-aligned.
#[repr(align(64))]
#[derive(Clone, Copy)]
pub struct Az;
macro_rules! kind {
    ($t:ty, |$k:ident| $mk:expr, |$s:ident| $is:expr, [$($e:expr),*]) => {
        impl Kind for $t {
            #[allow(unused_variables)]
            fn mk($k: u32) -> Self { $mk }
            #[allow(unused_variables)]
            fn is(&self, $k: u32) -> bool { let $s = self; $is }
            #[allow(unused_variables)]
            fn events($k: u32) -> Vec<String> { vec![$($e),*] }
        }
    };
}
fn f0(x: u8) -> u8 {
    x
}
fn f1(x: u8) -> u8 {
    x + 1
}
static STRS: [&str; 8] = ["a", "b", "c", "d", "e", "f", "g", "h"];
kind!((), |k| (), |s| true, []);
kind!(Z, |k| Z, |s| true, ["Z".to_string()]);
kind!(Az, |k| Az, |s| s as *const Az as usize % 64 == 0, []);
kind!(std::marker::PhantomData<D>, |k| std::marker::PhantomData, |s| true, []);
kind!(u8, |k| k as u8, |s| *s == k as u8, []);
kind!(u128, |k| (k as u128) << 99, |s| *s == (k as u128) << 99, []);
kind!([u8; 3000], |k| [k as u8; 3000], |s| s.iter().all(|x| *x == k as u8), []);
kind!(&'static str, |k| STRS[k as usize], |s| *s == STRS[k as usize], []);
kind!(fn(u8) -> u8, |k| if k % 2 == 0 { f0 } else { f1 }, |s| s(1) == 1 + (k % 2) as u8, []);
kind!(Option<Box<u8>>, |k| if k % 3 == 0 { None } else { Some(Box::new(k as u8)) }, |s| s.as_ref().map(|b| **b) == if k % 3 == 0 { None } else { Some(k as u8) }, []);
kind!(String, |k| format!("s{k}"), |s| *s == format!("s{k}"), []);
kind!(Vec<D>, |k| vec![D::new(k)], |s| s.len() == 1 && s[0].id() == k, [format!("D{k}")]);
kind!(std::mem::ManuallyDrop<Z>, |k| std::mem::ManuallyDrop::new(Z), |s| true, []);
kind!(Cell<bool>, |k| Cell::new(k % 2 == 0), |s| s.get() == (k % 2 == 0), []);
kind!(*const u8, |k| k as usize as *const u8, |s| *s as usize == k as usize, []);
kind!(D, |k| D::new(k), |s| s.id() == k, [format!("D{k}")]);
kind!((D, Z), |k| (D::new(k), Z), |s| s.0.id() == k, [format!("D{k}"), "Z".to_string()]);
kind!([D; 0], |k| [], |s| true, []);
kind!(Option<std::convert::Infallible>, |k| None, |s| s.is_none(), []);
kind!(Box<dyn Fn(u32) -> bool>, |k| Box::new(move |x| x == k), |s| s(k), []);

pub trait KindFn {
    fn go<A: Kind, B: Kind>(&self) -> Result<u64, String>;
}
macro_rules! kinds {
    ($m:ident!($($pre:tt)*)) => {
        $m!($($pre)* (), Z, Az, std::marker::PhantomData<D>, u8, u128, [u8; 3000], &'static str, fn(u8) -> u8, Option<Box<u8>>, String, Vec<D>,
            std::mem::ManuallyDrop<Z>, Cell<bool>, *const u8, D, (D, Z), [D; 0], Option<std::convert::Infallible>, Box<dyn Fn(u32) -> bool>)
    };
}
/// Every ordered pair of kinds.
pub fn kind_pairs<F: KindFn>(name: &str, f: F) {
    println!("BEGIN {name}");
    let mut n = 0;
    let mut one = |what: String, r: Option<Result<u64, String>>| match r {
        Some(Ok(k)) => n += k,
        Some(Err(m)) => println!("FAIL {what}: {}", m.replace('\n', " ")),
        None => println!("FAIL {what}: unexpected panic"),
    };
    fn second<F: KindFn, A: Kind>(f: &F, one: &mut impl FnMut(String, Option<Result<u64, String>>)) {
        macro_rules! inner {
            ($($t:ty),*) => { $(
                reset();
                one(format!("fields {} and {}", std::any::type_name::<A>(), std::any::type_name::<$t>()), catch(|| f.go::<A, $t>()));
            )* };
        }
        kinds!(inner!());
    }
    macro_rules! outer {
        ($($t:ty),*) => { $( second::<F, $t>(&f, &mut one); )* };
    }
    kinds!(outer!());
    println!("STATS {n} {n} {n}");
    println!("END {name}");
}
/// Every way to drop values made by `mk`, with a panic at every event; `one(k)` are the events of
/// dropping the value made from `k`.
pub fn kind_drops<V>(mk: &dyn Fn(u32) -> V, one: &dyn Fn(u32) -> Vec<String>) -> Result<u64, String> {
    let (w1, w2) = (one(1), [one(1), one(4)].concat());
    let run = |what: &str, want: &[String], unwinds: bool, code: &dyn Fn()| {
        let want: Vec<&str> = want.iter().map(|s| &**s).collect();
        all_panics(&want, unwinds, code).map_err(|m| format!("{what}: {m}"))
    };
    Ok(run("scope end", &w1, false, &|| {
        let _v = mk(1);
    })? + run("box", &w1, false, &|| drop(Box::pin(mk(1))))?
        + run("set", &w2, false, &|| {
            let mut b = Box::pin(mk(1));
            b.as_mut().set(mk(4));
        })?
        + run("vec", &w2, false, &|| drop(vec![mk(1), mk(4)]))?
        + run("rc", &w1, false, &|| {
            let a = std::rc::Rc::pin(mk(1));
            let b = a.clone();
            drop(a);
            drop(b);
        })?
        + run("option", &w1, false, &|| {
            let mut o = Some(mk(1));
            drop(o.take());
        })?
        + run("unwinding", &w1, true, &|| {
            let _v = mk(1);
            panic!("outer");
        })?
        + run("stack pin", &w1, false, &|| {
            let _p = std::pin::pin!(mk(1));
        })?)
}
/// `code` with a panic at every event.
pub fn kind_seq(want: &[String], code: &dyn Fn()) -> Result<u64, String> {
    let want: Vec<&str> = want.iter().map(|s| &**s).collect();
    all_panics(&want, false, code)
}
pub const fn str_eq(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    let mut i = 0;
    while i < a.len() && i < b.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    a.len() == b.len()
}
