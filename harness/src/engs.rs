//! Engines under which the interpreter runs: the real one (`adapton`), a
//! from-scratch evaluator (the oracle), and a reference incremental engine
//! (the oracle for how much work may be done).

use crate::lang::*;
use adapton::engine::*;
use adapton::macros::ProgPt;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::fmt::{self, Debug};
use std::hash::{Hash, Hasher};
use std::rc::{Rc, Weak};

pub trait Eng: Sized + 'static {
    type Art: Clone + Eq + Hash + Debug + 'static;
    fn observe(&self, a: &Self::Art, o: Obs) -> V<Self::Art>;
    fn cell(&self, n: &Nm, v: V<Self::Art>) -> Self::Art;
    fn thunk(cx: &Rc<Ctx<Self>>, n: &Nm, a: TArg<Self::Art>) -> Self::Art;
    fn set(&self, a: &Self::Art, v: V<Self::Art>);
    fn ns<T, F: FnOnce() -> T>(&self, n: &Nm, f: F) -> T;
    fn structural<T, F: FnOnce() -> T>(&self, f: F) -> T;
}

// ------------------------------------------------------------ the real one

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RArt(pub Art<V<RArt>>);

pub fn name(n: &Nm) -> Name {
    match n {
        Nm::Unit => name_unit(),
        Nm::S(s) => name_of_string(s.clone()),
        Nm::U(u) => name_of_usize(*u),
        Nm::I(i) => name_of_isize(*i),
        Nm::P(a, b) => name_pair(name(a), name(b)),
        Nm::L(a) => name_fork(name(a)).0,
        Nm::R(a) => name_fork(name(a)).1,
    }
}

pub const SYMS: [&str; 32] = [
    "f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9", "f10", "f11", "f12", "f13", "f14", "f15", "f16", "f17",
    "f18", "f19", "f20", "f21", "f22", "f23", "f24", "f25", "f26", "f27", "f28", "f29", "f30", "f31",
];

/// What the program asked of the engine, in order (for comparison with
/// recorded traces).
#[derive(Clone, Debug)]
pub enum Asked {
    Alloc(RArt, bool, String),
    Force(RArt),
    /// A debugging event, by number; `true` if it has an extent.
    Note(usize, bool),
    /// The end of that extent.
    End(usize),
}

/// The name and the message of a debugging event.
pub fn note(k: usize) -> (Option<Name>, Option<String>) {
    let n = || Some(name_pair(name_of_str("note"), name_of_usize(k)));
    let m = || Some(format!("note \"{}\", {}", k, k % 5));
    match k % 4 {
        0 => (n(), m()),
        1 => (n(), None),
        2 => (None, m()),
        _ => (n(), Some(String::new())),
    }
}

#[derive(Default)]
pub struct RealEng {
    pub log: RefCell<Option<Vec<Asked>>>,
    /// Demands by `force_cycle` with a cycle value that must not be seen.
    pub cyc: Cell<bool>,
    /// How often to add debugging events (0: never), and how many there are.
    pub notes: Cell<usize>,
    pub noted: Cell<usize>,
}
pub const CYCLE_SEEN: i64 = -7777;

struct ProjFam;
fn pset<A: PartialEq>(a: &V<A>, b: &V<A>) -> u8 {
    PROJS.iter().enumerate().map(|(i, p)| ((proj(*p, a) != proj(*p, b)) as u8) << i).sum()
}
impl AbsMapFam<usize, u8, V<RArt>, u8, i64> for ProjFam {
    fn map(&self, p: usize, v: V<RArt>) -> i64 {
        proj(PROJS[p], &v)
    }
    fn abs(&self, p: usize) -> u8 {
        1 << p
    }
    fn join(&self, a: u8, b: u8) -> u8 {
        a | b
    }
    fn diff(&self, a: &V<RArt>, b: &V<RArt>) -> u8 {
        pset(a, b)
    }
    fn is_dirty(&self, d: u8, a: &u8) -> bool {
        d & a != 0
    }
}

impl RealEng {
    fn ask(&self, f: impl FnOnce() -> Asked) {
        if let Some(l) = self.log.borrow_mut().as_mut() {
            l.push(f())
        }
    }
    /// Maybe add a debugging event, around what is done by `f`.
    fn noted<T>(&self, f: impl FnOnce() -> T) -> T {
        use adapton::engine::reflect_dcg as rd;
        let every = self.notes.get();
        if every == 0 || self.log.borrow().is_none() {
            return f();
        }
        let k = self.noted.get();
        self.noted.set(k + 1);
        if k % every != 0 {
            return f();
        }
        let (n, m) = note(k);
        let span = (k / every) % 3 != 0;
        self.ask(|| Asked::Note(k, span));
        if !span {
            rd::debug_effect(n, m);
            return f();
        }
        rd::debug_begin(n, m);
        let x = f();
        rd::debug_end();
        self.ask(|| Asked::End(k));
        x
    }
}

impl Eng for RealEng {
    type Art = RArt;
    fn observe(&self, a: &RArt, o: Obs) -> V<RArt> {
        self.noted(|| self.observe_(a, o))
    }
    fn cell(&self, n: &Nm, v: V<RArt>) -> RArt {
        self.noted(|| self.cell_(n, v))
    }
    fn thunk(cx: &Rc<Ctx<Self>>, n: &Nm, arg: TArg<RArt>) -> RArt {
        cx.eng.noted(|| Self::thunk_(cx, n, arg))
    }
    fn set(&self, a: &RArt, v: V<RArt>) {
        set(&a.0, v)
    }
    fn ns<T, F: FnOnce() -> T>(&self, n: &Nm, f: F) -> T {
        ns(name(n), f)
    }
    fn structural<T, F: FnOnce() -> T>(&self, f: F) -> T {
        structural(f)
    }
}

impl RealEng {
    fn observe_(&self, a: &RArt, o: Obs) -> V<RArt> {
        self.ask(|| Asked::Force(a.clone()));
        match o {
            Obs::Full if self.cyc.get() => force_cycle(&a.0, Some(V::I(CYCLE_SEEN))),
            Obs::Full => force(&a.0),
            Obs::Map(p) => V::I(force_map(&a.0, move |_, v| proj(p, &v))),
            Obs::Abs(p) => {
                let i = PROJS.iter().position(|q| *q == p).unwrap();
                V::I(force_abs(Box::new(ProjFam), i, a.0.clone()))
            }
        }
    }
    fn cell_(&self, n: &Nm, v: V<RArt>) -> RArt {
        // Logged before, since allocation is traced when it begins; the
        // articulation is only known afterwards.
        let at = self.log.borrow().as_ref().map(|l| l.len());
        let s = format!("{:?}", v);
        let a = RArt(cell(name(n), v));
        if let Some(at) = at {
            self.log.borrow_mut().as_mut().unwrap().insert(at, Asked::Alloc(a.clone(), true, s))
        }
        a
    }
    fn thunk_(cx: &Rc<Ctx<Self>>, n: &Nm, arg: TArg<RArt>) -> RArt {
        let s = format!("{:?}", arg);
        let a = RArt(thunk(
            NameChoice::Nominal(name(n)),
            ProgPt { symbol: SYMS[arg.fun] },
            Rc::new(Box::new(|a: TArg<RArt>, cx: Rc<Ctx<RealEng>>| run_thunk(&cx, a))),
            arg,
            cx.clone(),
        ));
        cx.eng.ask(|| Asked::Alloc(a.clone(), false, s));
        a
    }
}

// --------------------------------------------------- from-scratch evaluator

pub enum PNode {
    Cell(V<PArt>),
    Thunk(Box<dyn Fn() -> V<PArt>>, RefCell<Option<V<PArt>>>),
}
#[derive(Clone)]
pub struct PArt(pub Rc<PNode>);
impl PartialEq for PArt {
    fn eq(&self, o: &Self) -> bool {
        Rc::ptr_eq(&self.0, &o.0)
    }
}
impl Eq for PArt {}
impl Hash for PArt {
    fn hash<H: Hasher>(&self, h: &mut H) {
        Rc::as_ptr(&self.0).hash(h)
    }
}
impl Debug for PArt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "&_")
    }
}
pub struct PureEng;
fn view<A>(v: V<A>, o: Obs) -> V<A> {
    match o {
        Obs::Full => v,
        Obs::Map(p) | Obs::Abs(p) => V::I(proj(p, &v)),
    }
}
impl Eng for PureEng {
    type Art = PArt;
    fn observe(&self, a: &PArt, o: Obs) -> V<PArt> {
        let v = match &*a.0 {
            PNode::Cell(v) => v.clone(),
            PNode::Thunk(f, memo) => {
                let m = memo.borrow().clone();
                match m {
                    Some(v) => v,
                    None => {
                        let v = f();
                        *memo.borrow_mut() = Some(v.clone());
                        v
                    }
                }
            }
        };
        view(v, o)
    }
    fn cell(&self, _: &Nm, v: V<PArt>) -> PArt {
        PArt(Rc::new(PNode::Cell(v)))
    }
    fn thunk(cx: &Rc<Ctx<Self>>, _: &Nm, a: TArg<PArt>) -> PArt {
        let w: Weak<Ctx<Self>> = Rc::downgrade(cx);
        let f = move || run_thunk(&w.upgrade().unwrap(), a.clone());
        PArt(Rc::new(PNode::Thunk(Box::new(f), RefCell::new(None))))
    }
    fn set(&self, _: &PArt, _: V<PArt>) {
        unreachable!()
    }
    fn ns<T, F: FnOnce() -> T>(&self, _: &Nm, f: F) -> T {
        f()
    }
    fn structural<T, F: FnOnce() -> T>(&self, f: F) -> T {
        f()
    }
}

// --------------------------------------------- reference incremental engine

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct SArt(pub Rc<(Vec<Nm>, Nm)>);
impl Debug for SArt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "&{:?}/{:?}", self.0 .0, self.0 .1)
    }
}
#[derive(Clone, Debug)]
pub enum Seen {
    Full(V<SArt>),
    Map(Proj, i64),
}
enum SNode {
    Cell(V<SArt>),
    Thunk { arg: TArg<SArt>, cache: Option<V<SArt>>, seen: Rc<Vec<(SArt, Seen)>>, good: u64 },
}
pub struct ShadowEng {
    table: RefCell<HashMap<SArt, SNode>>,
    path: RefCell<Vec<Nm>>,
    stack: RefCell<Vec<Vec<(SArt, Seen)>>>,
    rev: Cell<u64>,
    cx: RefCell<Weak<Ctx<ShadowEng>>>,
    /// Re-evaluations that gave an unchanged result.
    pub firewalls: Cell<u64>,
    /// Cached results found valid after checking an observation.
    pub reuses: Cell<u64>,
}
impl ShadowEng {
    pub fn ctx(prog: &Rc<Prog>) -> Rc<Ctx<ShadowEng>> {
        let e = ShadowEng {
            table: RefCell::new(HashMap::new()),
            path: RefCell::new(vec![]),
            stack: RefCell::new(vec![]),
            rev: Cell::new(1),
            cx: RefCell::new(Weak::new()),
            firewalls: Cell::new(0),
            reuses: Cell::new(0),
        };
        let cx = Ctx::new(prog, e, false);
        *cx.eng.cx.borrow_mut() = Rc::downgrade(&cx);
        cx
    }
    fn loc(&self, n: &Nm) -> SArt {
        SArt(Rc::new((self.path.borrow().clone(), n.clone())))
    }
    fn bump(&self) {
        self.rev.set(self.rev.get() + 1)
    }
    fn cell_val(&self, a: &SArt) -> Option<V<SArt>> {
        match self.table.borrow().get(a) {
            Some(SNode::Cell(v)) => Some(v.clone()),
            Some(_) => None,
            None => panic!("shadow: dangling {:?}", a),
        }
    }
    fn put(&self, a: &SArt, v: V<SArt>) {
        let mut t = self.table.borrow_mut();
        let same = matches!(t.get(a), Some(SNode::Cell(w)) if *w == v);
        if !same {
            self.bump();
            t.insert(a.clone(), SNode::Cell(v));
        }
    }
    /// What `a` observed when last evaluated, by node observed.
    pub fn seen(&self, a: &SArt) -> Option<Rc<Vec<(SArt, Seen)>>> {
        match self.table.borrow().get(a) {
            Some(SNode::Thunk { seen, cache: Some(_), .. }) => Some(seen.clone()),
            _ => None,
        }
    }
    pub fn locs(&self) -> Vec<SArt> {
        let mut v: Vec<SArt> = self.table.borrow().keys().cloned().collect();
        v.sort();
        v
    }
    fn exec(&self, a: &SArt) -> V<SArt> {
        let arg = match self.table.borrow().get(a) {
            Some(SNode::Thunk { arg, .. }) => arg.clone(),
            _ => unreachable!(),
        };
        let cx = self.cx.borrow().upgrade().unwrap();
        let saved = self.path.replace(a.0 .0.clone());
        self.stack.borrow_mut().push(vec![]);
        let v = run_thunk(&cx, arg);
        let evs = self.stack.borrow_mut().pop().unwrap();
        *self.path.borrow_mut() = saved;
        if let Some(SNode::Thunk { cache, seen, good, .. }) = self.table.borrow_mut().get_mut(a) {
            *cache = Some(v.clone());
            *seen = Rc::new(evs);
            *good = self.rev.get();
        }
        v
    }
    fn demand(&self, a: &SArt) -> V<SArt> {
        let (c, seen, good) = match self.table.borrow().get(a) {
            Some(SNode::Thunk { cache, seen, good, .. }) => (cache.clone(), seen.clone(), *good),
            _ => unreachable!(),
        };
        let c = match c {
            None => return self.exec(a),
            Some(c) => c,
        };
        if good == self.rev.get() {
            return c;
        }
        for (b, s) in seen.iter() {
            let ok = match (self.cell_val(b), s) {
                (Some(v), Seen::Full(w)) => v == *w,
                (Some(v), Seen::Map(p, w)) => proj(*p, &v) == *w,
                (None, Seen::Full(w)) => self.demand(b) == *w,
                (None, Seen::Map(..)) => false,
            };
            if !ok {
                let v = self.exec(a);
                if v == c {
                    self.firewalls.set(self.firewalls.get() + 1)
                }
                return v;
            }
        }
        self.reuses.set(self.reuses.get() + 1);
        let r = self.rev.get();
        if let Some(SNode::Thunk { good, .. }) = self.table.borrow_mut().get_mut(a) {
            *good = r
        }
        c
    }
}
impl Eng for ShadowEng {
    type Art = SArt;
    fn observe(&self, a: &SArt, o: Obs) -> V<SArt> {
        let (v, s) = match self.cell_val(a) {
            Some(v) => {
                let s = match o {
                    Obs::Map(p) => Seen::Map(p, proj(p, &v)),
                    _ => Seen::Full(v.clone()),
                };
                (v, s)
            }
            None => {
                let v = self.demand(a);
                (v.clone(), Seen::Full(v))
            }
        };
        if let Some(f) = self.stack.borrow_mut().last_mut() {
            f.push((a.clone(), s))
        }
        view(v, o)
    }
    fn cell(&self, n: &Nm, v: V<SArt>) -> SArt {
        let a = self.loc(n);
        self.put(&a, v);
        a
    }
    fn thunk(cx: &Rc<Ctx<Self>>, n: &Nm, na: TArg<SArt>) -> SArt {
        let me = &cx.eng;
        let a = me.loc(n);
        let mut t = me.table.borrow_mut();
        if let Some(SNode::Thunk { arg, cache, .. }) = t.get_mut(&a) {
            if *arg != na {
                me.bump();
                *arg = na;
                *cache = None;
            }
            return a;
        }
        me.bump();
        t.insert(a.clone(), SNode::Thunk { arg: na, cache: None, seen: Rc::new(vec![]), good: 0 });
        a
    }
    fn set(&self, a: &SArt, v: V<SArt>) {
        self.put(a, v)
    }
    fn ns<T, F: FnOnce() -> T>(&self, n: &Nm, f: F) -> T {
        self.path.borrow_mut().push(n.clone());
        let r = f();
        self.path.borrow_mut().pop();
        r
    }
    fn structural<T, F: FnOnce() -> T>(&self, f: F) -> T {
        f()
    }
}

/// The location of a shadow node, in the terms of the real engine.
pub fn real_loc(a: &SArt) -> adapton::reflect::Loc {
    adapton::reflect::Loc { path: a.0 .0.iter().map(name).collect(), name: name(&a.0 .1) }
}
