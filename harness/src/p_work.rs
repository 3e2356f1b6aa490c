//! C26: the work of the catalogue's passes, against a small reference
//! implementation of demand-driven incremental computation.

use crate::fw::*;
use crate::p_list::*;
use crate::p_pipe::{Edited, Node};
use adapton::catalog::collections::*;
use adapton::engine::*;
use adapton::macros::ProgPt;
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

// ---------------------------------------------- what is counted, where

/// Kinds of calls of what the user gives to the passes.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Map,
    Pred,
    Compare,
    Level,
    Fold,
}
const KINDS: [Kind; 5] = [Kind::Map, Kind::Pred, Kind::Compare, Kind::Level, Kind::Fold];
type Counts = [u64; 5];

thread_local!(static COUNTS: Cell<Counts> = Cell::new([0; 5]));
fn count(k: Kind) {
    COUNTS.with(|c| {
        let mut a = c.get();
        a[k as usize] += 1;
        c.set(a)
    })
}
fn counts() -> Counts {
    COUNTS.with(|c| c.get())
}
fn since(a: Counts, b: Counts) -> Counts {
    let mut d = [0; 5];
    for i in 0..5 {
        d[i] = b[i] - a[i]
    }
    d
}

/// Elements whose comparisons are counted.
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct K(i64);
impl Ord for K {
    fn cmp(&self, o: &K) -> Ordering {
        count(Kind::Compare);
        self.0.cmp(&o.0)
    }
}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl El for K {
    fn of(i: i64) -> K {
        K(i)
    }
    fn num(&self) -> i64 {
        self.0
    }
    fn id() -> K {
        K(i64::MIN)
    }
    fn join(&self, o: &K) -> K {
        K(self.0.max(o.0))
    }
}

/// Levels whose computation is counted.
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub struct Lv(usize);
fn level<X: Hash>(x: &X) -> usize {
    let mut h = DefaultHasher::new();
    (x, 17).hash(&mut h);
    h.finish().trailing_zeros() as usize
}
impl Level for Lv {
    fn new<X: Hash>(x: &X) -> Lv {
        count(Kind::Level);
        Lv(level(x))
    }
    fn bits() -> Lv {
        Lv(32)
    }
    fn zero() -> Lv {
        Lv(0)
    }
    fn inc(x: &Lv) -> Lv {
        Lv(x.0 + 1)
    }
    fn add(x: &Lv, y: &Lv) -> Lv {
        Lv(x.0 + y.0)
    }
    fn lte(x: &Lv, y: &Lv) -> bool {
        x.0 <= y.0
    }
    fn max_val() -> Lv {
        Lv(usize::MAX)
    }
}

/// A tree type of our own.
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub enum WT {
    Nil,
    Leaf(K),
    Two(Option<Name>, Lv, Rc<(WT, WT)>),
    Art(Art<WT>),
}
impl TreeIntro<Lv, K> for WT {
    fn nil() -> WT {
        WT::Nil
    }
    fn leaf(x: K) -> WT {
        WT::Leaf(x)
    }
    fn bin(v: Lv, l: WT, r: WT) -> WT {
        WT::Two(None, v, Rc::new((l, r)))
    }
    fn name(n: Name, v: Lv, l: WT, r: WT) -> WT {
        WT::Two(Some(n), v, Rc::new((l, r)))
    }
    fn art(a: Art<WT>) -> WT {
        WT::Art(a)
    }
}
impl TreeElim<Lv, K> for WT {
    fn lev_of_tree(t: &WT) -> Lv {
        match t {
            WT::Nil => Lv(0),
            WT::Leaf(x) => Lv(level(x)),
            WT::Two(_, v, _) => *v,
            WT::Art(a) => Self::lev_of_tree(&force(a)),
        }
    }
    fn elim<Res, NilC, LeafC, BinC, NameC>(t: WT, nil: NilC, leaf: LeafC, bin: BinC, name: NameC) -> Res
    where
        NilC: FnOnce() -> Res,
        LeafC: FnOnce(K) -> Res,
        BinC: FnOnce(Lv, WT, WT) -> Res,
        NameC: FnOnce(Name, Lv, WT, WT) -> Res,
    {
        match t {
            WT::Nil => nil(),
            WT::Leaf(x) => leaf(x),
            WT::Two(None, v, lr) => bin(v, lr.0.clone(), lr.1.clone()),
            WT::Two(Some(n), v, lr) => name(n, v, lr.0.clone(), lr.1.clone()),
            WT::Art(a) => Self::elim(force(&a), nil, leaf, bin, name),
        }
    }
    fn elim_ref<Res, NilC, LeafC, BinC, NameC>(t: &WT, nil: NilC, leaf: LeafC, bin: BinC, name: NameC) -> Res
    where
        NilC: FnOnce() -> Res,
        LeafC: FnOnce(&K) -> Res,
        BinC: FnOnce(&Lv, &WT, &WT) -> Res,
        NameC: FnOnce(&Name, &Lv, &WT, &WT) -> Res,
    {
        match t {
            WT::Nil => nil(),
            WT::Leaf(x) => leaf(x),
            WT::Two(None, v, lr) => bin(v, &lr.0, &lr.1),
            WT::Two(Some(n), v, lr) => name(n, v, &lr.0, &lr.1),
            WT::Art(a) => Self::elim_ref(&force(a), nil, leaf, bin, name),
        }
    }
    fn elim_arg<Arg, Res, NilC, LeafC, BinC, NameC>(t: WT, arg: Arg, nil: NilC, leaf: LeafC, bin: BinC, name: NameC) -> Res
    where
        NilC: FnOnce(Arg) -> Res,
        LeafC: FnOnce(K, Arg) -> Res,
        BinC: FnOnce(Lv, WT, WT, Arg) -> Res,
        NameC: FnOnce(Name, Lv, WT, WT, Arg) -> Res,
    {
        match t {
            WT::Art(a) => Self::elim_arg(force(&a), arg, nil, leaf, bin, name),
            _ => Self::full_move(t, arg, nil, leaf, bin, name, |_, _| unreachable!()),
        }
    }
    fn full_move<Arg, Res, NilC, LeafC, BinC, NameC, ArtC>(t: WT, arg: Arg, nil: NilC, leaf: LeafC, bin: BinC, name: NameC, art: ArtC) -> Res
    where
        NilC: FnOnce(Arg) -> Res,
        LeafC: FnOnce(K, Arg) -> Res,
        BinC: FnOnce(Lv, WT, WT, Arg) -> Res,
        NameC: FnOnce(Name, Lv, WT, WT, Arg) -> Res,
        ArtC: FnOnce(&Art<WT>, Arg) -> Res,
    {
        match t {
            WT::Nil => nil(arg),
            WT::Leaf(x) => leaf(x, arg),
            WT::Two(None, v, lr) => bin(v, lr.0.clone(), lr.1.clone(), arg),
            WT::Two(Some(n), v, lr) => name(n, v, lr.0.clone(), lr.1.clone(), arg),
            WT::Art(a) => art(&a, arg),
        }
    }
}

// -------------------------------------- the reference: engine and data

type Key = (Vec<Name>, Name);

#[derive(Clone, Debug, PartialEq)]
enum ML {
    Nil,
    Cons(i64, Rc<ML>),
    Name(Name, Rc<ML>),
    Art(Key),
}
#[derive(Clone, Debug, PartialEq)]
enum MT {
    Nil,
    Leaf(i64),
    Two(Option<Name>, usize, Rc<(MT, MT)>),
    Art(Key),
}
#[derive(Clone, Debug, PartialEq)]
enum V {
    L(ML),
    T(MT),
    X(i64),
    Op(Option<Name>),
    N(usize),
    Seq(Seq<i64>),
    Tup(Vec<V>),
}
use V::{Op, Tup, L, N, T, X};
impl V {
    fn l(self) -> ML {
        match self {
            L(l) => l,
            v => panic!("{:?} for a list", v),
        }
    }
    fn t(self) -> MT {
        match self {
            T(t) => t,
            v => panic!("{:?} for a tree", v),
        }
    }
}

type Body = Rc<dyn Fn(&mut Mini, Vec<V>) -> V>;

/// What a computation did to others.
#[derive(Clone)]
enum Saw {
    Value(Key, V),
    /// It allocated this, and left that version.
    Made(Key, u64),
}
struct Done {
    value: V,
    saw: Vec<Saw>,
}
enum Held {
    Cell(V),
    Comp { arg: Vec<V>, body: Body, done: Option<Done>, checked: u64 },
}

/// Runs a computation on demand: if it never ran with this argument,
/// something that it saw has changed, or something that it made was
/// made differently by another.
#[derive(Default)]
struct Mini {
    nodes: HashMap<Key, (u64, Held)>,
    path: Vec<Name>,
    stack: Vec<Vec<Saw>>,
    epoch: u64,
    n: Counts,
}

impl Mini {
    fn count(&mut self, k: Kind) {
        self.n[k as usize] += 1
    }
    fn ns<R>(&mut self, n: Name, f: impl FnOnce(&mut Mini) -> R) -> R {
        self.path.push(n);
        let r = f(self);
        self.path.pop();
        r
    }
    fn cell(&mut self, n: Name, v: V) -> Key {
        let k = (self.path.clone(), n);
        match self.nodes.get_mut(&k) {
            None => {
                self.nodes.insert(k.clone(), (0, Held::Cell(v)));
            }
            Some((_, Held::Cell(w))) if *w == v => (),
            Some((version, held)) => {
                *version += 1;
                *held = Held::Cell(v);
                self.epoch += 1
            }
        }
        self.made(k)
    }
    fn thunk(&mut self, n: Name, arg: Vec<V>, f: impl Fn(&mut Mini, Vec<V>) -> V + 'static) -> Key {
        let k = (self.path.clone(), n);
        let body: Body = Rc::new(f);
        match self.nodes.get_mut(&k) {
            None => {
                self.nodes.insert(k.clone(), (0, Held::Comp { arg, body, done: None, checked: 0 }));
            }
            Some((_, Held::Comp { arg: a, body: b, .. })) if *a == arg => *b = body,
            Some((version, held)) => {
                *version += 1;
                *held = Held::Comp { arg, body, done: None, checked: 0 };
                self.epoch += 1
            }
        }
        self.made(k)
    }
    fn made(&mut self, k: Key) -> Key {
        let version = self.nodes[&k].0;
        if let Some(top) = self.stack.last_mut() {
            top.push(Saw::Made(k.clone(), version))
        }
        k
    }
    fn value(&mut self, k: &Key) -> V {
        let saw = match &self.nodes[k].1 {
            Held::Cell(v) => return v.clone(),
            Held::Comp { done: Some(d), checked, .. } if *checked == self.epoch => return d.value.clone(),
            Held::Comp { done: Some(d), .. } => Some(d.saw.clone()),
            _ => None,
        };
        let ok = saw.map_or(false, |s| {
            s.iter().all(|s| match s {
                Saw::Value(k, v) => self.value(k) == *v,
                Saw::Made(k, version) => self.nodes[k].0 == *version,
            })
        });
        let epoch = self.epoch;
        match &mut self.nodes.get_mut(k).unwrap().1 {
            Held::Comp { done: Some(d), checked, .. } if ok => {
                *checked = epoch;
                d.value.clone()
            }
            Held::Comp { arg, body, .. } => {
                let (arg, body) = (arg.clone(), body.clone());
                let path = std::mem::replace(&mut self.path, k.0.clone());
                self.stack.push(vec![]);
                let value = body(self, arg);
                let saw = self.stack.pop().unwrap();
                self.path = path;
                let now = self.epoch;
                match &mut self.nodes.get_mut(k).unwrap().1 {
                    Held::Comp { done, checked, .. } => {
                        *done = Some(Done { value: value.clone(), saw });
                        *checked = now
                    }
                    _ => panic!("no computation {:?}", k),
                }
                value
            }
            _ => panic!("no computation {:?}", k),
        }
    }
    fn force(&mut self, k: &Key) -> V {
        let v = self.value(k);
        if let Some(top) = self.stack.last_mut() {
            top.push(Saw::Value(k.clone(), v.clone()))
        }
        v
    }
    fn memo(&mut self, n: Name, arg: Vec<V>, f: impl Fn(&mut Mini, Vec<V>) -> V + 'static) -> (Key, V) {
        let k = self.thunk(n, arg, f);
        let v = self.force(&k);
        (k, v)
    }
    /// Without articulations in front.
    fn list(&mut self, mut l: ML) -> ML {
        while let ML::Art(k) = &l {
            let k = k.clone();
            l = self.force(&k).l()
        }
        l
    }
    fn tree(&mut self, mut t: MT) -> MT {
        while let MT::Art(k) = &t {
            let k = k.clone();
            t = self.force(&k).t()
        }
        t
    }
}

fn cons(x: i64, l: ML) -> ML {
    ML::Cons(x, Rc::new(l))
}
fn name(n: Name, l: ML) -> ML {
    ML::Name(n, Rc::new(l))
}
fn two(n: Option<Name>, v: usize, l: MT, r: MT) -> MT {
    MT::Two(n, v, Rc::new((l, r)))
}

// ------------------------------------------------ the reference: passes

fn other(d: Dir2) -> Dir2 {
    match d {
        Dir2::Left => Dir2::Right,
        Dir2::Right => Dir2::Left,
    }
}

fn fun(k: usize, x: i64) -> i64 {
    map_f::<i64>(k)(&x)
}
fn keep(k: usize, x: i64) -> bool {
    pred_f::<i64>(k)(&x)
}

/// Maps and filters: one computation for each name.
fn m_map(m: &mut Mini, how: usize, f: usize, l: ML) -> ML {
    match m.list(l) {
        ML::Cons(x, tl) => {
            m.count(Kind::Map);
            let y = fun(f, x);
            let rest = m_map(m, how, f, (*tl).clone());
            cons(y, rest)
        }
        ML::Name(n, tl) => {
            let arg = vec![L((*tl).clone())];
            let body = move |m: &mut Mini, a: Vec<V>| L(m_map(m, how, f, a[0].clone().l()));
            match how {
                0 => {
                    let (k, _) = m.memo(n.clone(), arg, body);
                    name(n, ML::Art(k))
                }
                1 => {
                    let (n1, n2, n3) = name_fork3(n);
                    let (_, v) = m.memo(n2, arg, body);
                    let k = m.cell(n3, v);
                    name(n1, ML::Art(k))
                }
                _ => ML::Art(m.thunk(n, arg, body)),
            }
        }
        l => l,
    }
}
fn m_filter(m: &mut Mini, lazy: bool, p: usize, l: ML) -> ML {
    match m.list(l) {
        ML::Cons(x, tl) => {
            m.count(Kind::Pred);
            let b = keep(p, x);
            let rest = m_filter(m, lazy, p, (*tl).clone());
            if b {
                cons(x, rest)
            } else {
                rest
            }
        }
        ML::Name(n, tl) => {
            let arg = vec![L((*tl).clone())];
            let body = move |m: &mut Mini, a: Vec<V>| L(m_filter(m, lazy, p, a[0].clone().l()));
            if lazy {
                ML::Art(m.thunk(n, arg, body))
            } else {
                let (k, _) = m.memo(n.clone(), arg, body);
                name(n, ML::Art(k))
            }
        }
        l => l,
    }
}
fn m_reverse(m: &mut Mini, l: ML, rev: ML) -> ML {
    match m.list(l) {
        ML::Cons(x, tl) => m_reverse(m, (*tl).clone(), cons(x, rev)),
        ML::Name(n, tl) => {
            let k = m.cell(name_pair(name_of_str("rev"), n.clone()), L(rev));
            let (k, _) = m.memo(n.clone(), vec![L((*tl).clone()), L(ML::Art(k))], |m, a| L(m_reverse(m, a[0].clone().l(), a[1].clone().l())));
            name(n, ML::Art(k))
        }
        _ => rev,
    }
}

/// A tree of a list: one computation for what follows a name and lies
/// below it, and one for what lies beside that.
fn m_tree_of_list(m: &mut Mini, d: Dir2, l: ML, t: MT, tl: usize, pl: usize) -> (MT, ML) {
    let side = move |n: Option<Name>, v: usize, t: MT, t2: MT| match d {
        Dir2::Left => two(n, v, t, t2),
        Dir2::Right => two(n, v, t2, t),
    };
    let again = move |m: &mut Mini, a: Vec<V>| match &a[..] {
        [L(l), T(t), N(tl), N(pl)] => {
            let (t, l) = m_tree_of_list(m, d, l.clone(), t.clone(), *tl, *pl);
            Tup(vec![T(t), L(l)])
        }
        _ => panic!("{:?}", a),
    };
    let parts = |v: V| match v {
        Tup(v) => (v[0].clone().t(), v[1].clone().l()),
        v => panic!("{:?}", v),
    };
    match m.list(l) {
        ML::Cons(x, rest) => {
            m.count(Kind::Level);
            let v = level(&K(x)) + 1;
            if tl <= v && v <= pl {
                let (t2, rest2) = m_tree_of_list(m, d, (*rest).clone(), MT::Leaf(x), 0, v);
                m_tree_of_list(m, d, rest2, side(None, v, t, t2), v, pl)
            } else {
                (t, ML::Cons(x, rest))
            }
        }
        ML::Name(n, rest) => {
            m.count(Kind::Level);
            let v = level(&n) + 33;
            if tl <= v && v <= pl {
                let (n1, n2) = name_fork(n.clone());
                let (_, r) = m.memo(n1, vec![L((*rest).clone()), T(MT::Nil), N(0), N(v)], again);
                let (t2, rest) = parts(r);
                let t3 = T(side(Some(n.clone()), v, t, t2));
                let k = m.ns(name_unit(), |m| m.cell(n, t3));
                let (_, r) = m.memo(n2, vec![L(rest), T(MT::Art(k)), N(v), N(pl)], again);
                parts(r)
            } else {
                (t, ML::Name(n, rest))
            }
        }
        l => (t, l),
    }
}

#[derive(Clone, Copy)]
enum Seqed {
    List,
    Filter(usize),
}
/// A list of a tree: one computation for each side of a name.
fn m_fold_seq(m: &mut Mini, t: MT, d: Dir2, res: ML, what: Seqed) -> ML {
    match m.tree(t) {
        MT::Nil => res,
        MT::Leaf(x) => match what {
            Seqed::List => cons(x, res),
            Seqed::Filter(p) => {
                m.count(Kind::Pred);
                if keep(p, x) {
                    cons(x, res)
                } else {
                    res
                }
            }
        },
        MT::Two(n, _, lr) => {
            let (l, r) = match d {
                Dir2::Left => (lr.0.clone(), lr.1.clone()),
                Dir2::Right => (lr.1.clone(), lr.0.clone()),
            };
            match n {
                None => {
                    let res = m_fold_seq(m, l, d, res, what);
                    m_fold_seq(m, r, d, res, what)
                }
                Some(n) => {
                    let (n1, n2) = name_fork(n.clone());
                    let body = move |m: &mut Mini, a: Vec<V>| L(m_fold_seq(m, a[0].clone().t(), d, a[1].clone().l(), what));
                    let (_, res) = m.memo(n1, vec![T(l), L(res)], body);
                    let res = res.l();
                    let skip = match what {
                        Seqed::List => false,
                        Seqed::Filter(_) => matches!(m.list(res.clone()), ML::Name(..)),
                    };
                    let res = if skip {
                        res
                    } else {
                        let k = m.cell(n.clone(), L(res));
                        name(n, ML::Art(k))
                    };
                    let (_, res) = m.memo(n2, vec![T(r), L(res)], body);
                    res.l()
                }
            }
        }
        MT::Art(_) => unreachable!(),
    }
}

#[derive(Clone, Copy)]
enum Up {
    Filter(usize),
    Prune,
    Copy,
    Fold,
    Sort,
    /// With names handed down.
    SortDown,
}
/// Folds a tree from below: one computation for each side of a name.
fn m_fold_up(m: &mut Mini, t: MT, down: Option<Name>, what: Up) -> V {
    match m.tree(t) {
        MT::Nil => match what {
            Up::Filter(_) | Up::Prune | Up::Copy => T(MT::Nil),
            Up::Fold => X(K::id().0),
            Up::Sort | Up::SortDown => L(ML::Nil),
        },
        MT::Leaf(x) => match what {
            Up::Filter(p) => {
                m.count(Kind::Pred);
                T(if keep(p, x) { MT::Leaf(x) } else { MT::Nil })
            }
            Up::Prune | Up::Copy => T(MT::Leaf(x)),
            Up::Fold => X(x),
            Up::Sort => L(cons(x, ML::Nil)),
            Up::SortDown => {
                let l = cons(x, ML::Nil);
                L(match down {
                    None => l,
                    Some(n) => name(n, l),
                })
            }
        },
        MT::Two(n, v, lr) => {
            let (l, r) = (lr.0.clone(), lr.1.clone());
            let (l, r) = match &n {
                None => (m_fold_up(m, l, down.clone(), what), m_fold_up(m, r, None, what)),
                Some(n) => {
                    let (n1, n2) = name_fork(n.clone());
                    let body = move |m: &mut Mini, a: Vec<V>| match &a[..] {
                        [T(t), Op(d)] => m_fold_up(m, t.clone(), d.clone(), what),
                        _ => panic!("{:?}", a),
                    };
                    let (dl, dr) = match what {
                        Up::SortDown => (down.clone(), Some(n.clone())),
                        _ => (None, None),
                    };
                    let (_, l) = m.memo(n1, vec![T(l), Op(dl)], body);
                    let (_, r) = m.memo(n2, vec![T(r), Op(dr)], body);
                    (l, r)
                }
            };
            match what {
                Up::Copy => T(two(n, v, l.t(), r.t())),
                Up::Filter(_) | Up::Prune => m.ns(name_unit(), |m| {
                    let (l, r) = (l.t(), r.t());
                    if m.tree(l.clone()) == MT::Nil {
                        return T(r);
                    }
                    if m.tree(r.clone()) == MT::Nil {
                        return T(l);
                    }
                    match n {
                        None => T(two(None, v, l, r)),
                        Some(n) => {
                            let (nl, nr) = name_fork(n.clone());
                            let l = MT::Art(m.cell(nl, T(l)));
                            let r = MT::Art(m.cell(nr, T(r)));
                            T(two(Some(n), v, l, r))
                        }
                    }
                }),
                Up::Fold => match (l, r) {
                    (X(l), X(r)) => {
                        m.count(Kind::Fold);
                        X(l.max(r))
                    }
                    _ => panic!("not numbers"),
                },
                Up::Sort | Up::SortDown => {
                    let (n1, n2) = match (what, n) {
                        (Up::Sort, Some(n)) => {
                            let (a, b) = name_fork(n);
                            (Some(a), Some(b))
                        }
                        _ => (None, None),
                    };
                    L(m.ns(name_of_str("merge"), |m| m_merge(m, n1, l.l(), n2, r.l())))
                }
            }
        }
        MT::Art(_) => unreachable!(),
    }
}
/// A merge, lazy from the element after a name on.
fn m_merge(m: &mut Mini, n1: Option<Name>, l1: ML, n2: Option<Name>, l2: ML) -> ML {
    let named = |n: Option<Name>, l: ML| match n {
        None => l,
        Some(n) => name(n, l),
    };
    let later = |m: &mut Mini, n: Name, arg: (Option<Name>, ML, Option<Name>, ML)| {
        let (na, nb) = name_fork(n);
        let arg = vec![Op(arg.0), L(arg.1), Op(arg.2), L(arg.3)];
        let k = m.thunk(na, arg, |m, a| match &a[..] {
            [Op(n1), L(l1), Op(n2), L(l2)] => L(m_merge(m, n1.clone(), l1.clone(), n2.clone(), l2.clone())),
            _ => panic!("{:?}", a),
        });
        (nb, ML::Art(k))
    };
    match m.list(l1) {
        ML::Name(n, t1) => m_merge(m, Some(n), (*t1).clone(), n2, l2),
        ML::Cons(h1, t1) => match m.list(l2) {
            ML::Name(n, t2) => m_merge(m, n1, ML::Cons(h1, t1), Some(n), (*t2).clone()),
            ML::Cons(h2, t2) => {
                m.count(Kind::Compare);
                let t = |t: &Rc<ML>| (**t).clone();
                if h1 <= h2 {
                    let l2 = ML::Cons(h2, t2);
                    match n1 {
                        None => cons(h1, m_merge(m, None, t(&t1), n2, l2)),
                        Some(n) => {
                            let (nb, rest) = later(m, n, (None, t(&t1), n2, l2));
                            name(nb, cons(h1, rest))
                        }
                    }
                } else {
                    let l1 = ML::Cons(h1, t1);
                    match n2 {
                        None => cons(h2, m_merge(m, n1, l1, None, t(&t2))),
                        Some(n) => {
                            let (nb, rest) = later(m, n, (n1, l1, None, t(&t2)));
                            name(nb, cons(h2, rest))
                        }
                    }
                }
            }
            _ => named(n1, ML::Cons(h1, t1)),
        },
        _ => {
            // The rest of the other list, as it is.
            named(n2, l2)
        }
    }
}

// -------------------------------------------------- passes, both ways

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
enum Pass {
    Map(usize, usize),
    Filter(bool, usize),
    Reverse,
    Tree(Dir2, Dir2),
    TreeFilterList(Dir2, usize),
    TreeFilter(Dir2, usize),
    Prune(Dir2),
    Copy(Dir2),
    Sort(Dir2, usize, bool, bool),
    /// All elements in one.
    Fold(Dir2),
}
fn pass(t: &mut Tape) -> Pass {
    let d = |t: &mut Tape| if t.chance(1, 2) { Dir2::Right } else { Dir2::Left };
    match t.weighted(&[6, 5, 2, 4, 2, 3, 1, 1, 5, 3]) {
        0 => Pass::Map(t.below(3), t.below(4)),
        1 => Pass::Filter(t.chance(1, 2), t.below(4)),
        2 => Pass::Reverse,
        3 => Pass::Tree(d(t), d(t)),
        4 => Pass::TreeFilterList(d(t), t.below(4)),
        5 => Pass::TreeFilter(d(t), t.below(4)),
        6 => Pass::Prune(d(t)),
        7 => Pass::Copy(d(t)),
        8 => Pass::Sort(d(t), t.below(3), t.chance(1, 2), t.chance(1, 2)),
        _ => Pass::Fold(d(t)),
    }
}

fn region_name(i: usize, s: &'static str) -> Name {
    name_pair(name_of_str("pass"), name_pair(name_of_usize(i), name_of_str(s)))
}
fn region<R>(i: usize, s: &'static str, f: impl FnOnce() -> R) -> R {
    ns(region_name(i, s), f)
}
fn first(i: usize) -> Name {
    name_pair(name_of_str("first"), name_of_usize(i))
}

fn run_pass(i: usize, p: &Pass, l: List<K>) -> List<K> {
    let tree = |d: Dir2, l: List<K>| -> WT { region(i, "tree", || tree_of_list(d, l)) };
    let list = |t: WT, d: Dir2| -> List<K> { region(i, "list", || list_of_tree(t, d)) };
    let f = |k: usize| {
        Rc::new(move |x: K| {
            count(Kind::Map);
            K(fun(k, x.0))
        })
    };
    let q = |k: usize| {
        move |x: &K| {
            count(Kind::Pred);
            keep(k, x.0)
        }
    };
    match p {
        Pass::Map(0, k) => region(i, "map", || list_map_eager(l, f(*k))),
        Pass::Map(1, k) => region(i, "map", || list_map_eager2(l, f(*k))),
        Pass::Map(_, k) => region(i, "map", || list_map_lazy(l, f(*k))),
        Pass::Filter(false, k) => region(i, "filter", || list_filter_eager(l, Rc::new(q(*k)))),
        Pass::Filter(true, k) => region(i, "filter", || list_filter_lazy(l, Rc::new(q(*k)))),
        Pass::Reverse => region(i, "reverse", || list_reverse(l, List::nil())),
        Pass::Tree(a, b) => list(tree(*a, l), *b),
        Pass::TreeFilterList(d, k) => {
            let t = tree(*d, l);
            region(i, "list", || filter_list_of_tree(t, Box::new(q(*k))))
        }
        Pass::TreeFilter(d, k) => {
            let t = tree(*d, l);
            list(region(i, "filter", || filter_tree_of_tree::<_, _, _, WT>(t, Box::new(q(*k)))), *d)
        }
        Pass::Prune(d) => {
            let t = tree(*d, l);
            list(region(i, "prune", || prune_tree_of_tree::<_, _, _, WT>(t)), *d)
        }
        Pass::Copy(d) => {
            let t = tree(*d, l);
            list(region(i, "copy", || eager_tree_of_tree::<_, _, _, WT>(t)), *d)
        }
        Pass::Sort(d, k, named, prune) => {
            let mut t = tree(*d, l);
            if *prune {
                t = region(i, "prune", || prune_tree_of_tree(t))
            }
            let n = if *named { Some(first(i)) } else { None };
            region(i, "sort", || match k {
                0 => mergesort_list_of_tree(t),
                1 => mergesort_list_of_tree2(t, n),
                _ => mergesort_list_of_tree3(t, n),
            })
        }
        Pass::Fold(d) => {
            let t = tree(*d, l);
            let op: Rc<dyn Fn(K, K) -> K> = Rc::new(|a, b| {
                count(Kind::Fold);
                a.join(&b)
            });
            List::Cons(region(i, "fold", || monoid_of_tree(t, K::id(), op)), Box::new(List::Nil))
        }
    }
}

fn m_pass(m: &mut Mini, i: usize, p: &Pass, l: ML) -> ML {
    let tree = |m: &mut Mini, d: Dir2, l: ML| -> MT {
        m.ns(region_name(i, "tree"), |m| {
            let (t, rest) = m_tree_of_list(m, d, l, MT::Nil, 0, usize::MAX);
            assert!(m.list(rest) == ML::Nil);
            t
        })
    };
    let list = |m: &mut Mini, t: MT, d: Dir2| m.ns(region_name(i, "list"), |m| m_fold_seq(m, t, other(d), ML::Nil, Seqed::List));
    match p {
        Pass::Map(how, k) => m.ns(region_name(i, "map"), |m| m_map(m, *how, *k, l)),
        Pass::Filter(lazy, k) => m.ns(region_name(i, "filter"), |m| m_filter(m, *lazy, *k, l)),
        Pass::Reverse => m.ns(region_name(i, "reverse"), |m| m_reverse(m, l, ML::Nil)),
        Pass::Tree(a, b) => {
            let t = tree(m, *a, l);
            list(m, t, *b)
        }
        Pass::TreeFilterList(d, k) => {
            let t = tree(m, *d, l);
            m.ns(region_name(i, "list"), |m| m_fold_seq(m, t, Dir2::Right, ML::Nil, Seqed::Filter(*k)))
        }
        Pass::TreeFilter(d, k) => {
            let t = tree(m, *d, l);
            let t = m.ns(region_name(i, "filter"), |m| m_fold_up(m, t, None, Up::Filter(*k)));
            list(m, t.t(), *d)
        }
        Pass::Prune(d) => {
            let t = tree(m, *d, l);
            let t = m.ns(region_name(i, "prune"), |m| m_fold_up(m, t, None, Up::Prune));
            list(m, t.t(), *d)
        }
        Pass::Copy(d) => {
            let t = tree(m, *d, l);
            let t = m.ns(region_name(i, "copy"), |m| m_fold_up(m, t, None, Up::Copy));
            list(m, t.t(), *d)
        }
        Pass::Sort(d, k, named, prune) => {
            let mut t = tree(m, *d, l);
            if *prune {
                t = m.ns(region_name(i, "prune"), |m| m_fold_up(m, t, None, Up::Prune)).t()
            }
            let n = if *named && *k > 0 { Some(first(i)) } else { None };
            let how = if *k == 0 { Up::Sort } else { Up::SortDown };
            m.ns(region_name(i, "sort"), |m| m_fold_up(m, t, n, how)).l()
        }
        Pass::Fold(d) => {
            let t = tree(m, *d, l);
            match m.ns(region_name(i, "fold"), |m| m_fold_up(m, t, None, Up::Fold)) {
                X(x) => cons(x, ML::Nil),
                v => panic!("{:?}", v),
            }
        }
    }
}

fn run_all(passes: &[Pass], l: List<K>) -> List<K> {
    passes.iter().enumerate().fold(l, |l, (i, p)| run_pass(i, p, l))
}
fn m_all(m: &mut Mini, passes: &[Pass], l: ML) -> ML {
    passes.iter().enumerate().fold(l, |l, (i, p)| m_pass(m, i, p, l))
}

// --------------------------------------------------------- both engines

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Mode {
    Plain,
    Root,
    Whole,
    Stages,
}
fn root(i: usize) -> Name {
    name_pair(name_of_str("root"), name_of_usize(i))
}
const PT: ProgPt = ProgPt { symbol: "root" };

struct Real {
    mode: Mode,
    passes: Rc<Vec<Pass>>,
    input: Art<List<K>>,
    stages: Vec<Art<List<K>>>,
    whole: Option<Art<Seq<K>>>,
}
impl Real {
    fn new(mode: Mode, passes: &Rc<Vec<Pass>>, input: Art<List<K>>) -> Real {
        let mut r = Real { mode, passes: passes.clone(), input: input.clone(), stages: vec![], whole: None };
        let n = |i: usize| NameChoice::Nominal(root(i));
        match mode {
            Mode::Plain => (),
            Mode::Root => r.stages.push(thunk(n(0), PT, Rc::new(Box::new(|l: Art<List<K>>, p: Rc<Vec<Pass>>| run_all(&p, List::Art(l)))), input, passes.clone())),
            Mode::Whole => {
                r.whole = Some(thunk(n(0), PT, Rc::new(Box::new(|l: Art<List<K>>, p: Rc<Vec<Pass>>| whole(run_all(&p, List::Art(l))))), input, passes.clone()))
            }
            Mode::Stages => {
                let mut from = input;
                for i in 0..passes.len() {
                    from = thunk(
                        n(i),
                        PT,
                        Rc::new(Box::new(|(i, l): (usize, Art<List<K>>), p: Rc<Vec<Pass>>| run_pass(i, &p[i], List::Art(l)))),
                        (i, from),
                        passes.clone(),
                    );
                    r.stages.push(from.clone());
                }
            }
        }
        r
    }
    fn demand(&self, limit: Option<usize>) -> Seq<K> {
        match self.mode {
            Mode::Plain => vec_of_list(run_all(&self.passes, List::Art(self.input.clone())), limit),
            Mode::Whole => {
                let v = force(self.whole.as_ref().unwrap());
                let n = limit.unwrap_or(v.len()).min(v.len());
                v[..n].to_vec()
            }
            _ => vec_of_list(force(self.stages.last().unwrap()), limit),
        }
    }
}

fn m_take(m: &mut Mini, mut l: ML, limit: Option<usize>) -> Seq<i64> {
    let mut out = vec![];
    loop {
        if limit == Some(out.len()) {
            return out;
        }
        match m.list(l) {
            ML::Cons(x, tl) => {
                out.push(NameElse::Else(x));
                l = (*tl).clone()
            }
            ML::Name(n, tl) => {
                out.push(NameElse::Name(n));
                l = (*tl).clone()
            }
            _ => return out,
        }
    }
}

struct Model {
    m: Mini,
    mode: Mode,
    passes: Rc<Vec<Pass>>,
    input: Key,
    tops: Vec<Key>,
}
impl Model {
    fn new(mode: Mode, passes: &Rc<Vec<Pass>>, e: &Edited<K>) -> Model {
        let mut m = Mini::default();
        let order: Vec<usize> = e.order.iter().rev().cloned().collect();
        for i in order {
            m_write(&mut m, e, i)
        }
        let input = node_key(&e.nodes[0]);
        let mut tops = vec![];
        let src = ML::Art(input.clone());
        match mode {
            Mode::Plain => (),
            Mode::Root => {
                let p = passes.clone();
                tops.push(m.thunk(root(0), vec![L(src)], move |m, a| L(m_all(m, &p, a[0].clone().l()))))
            }
            Mode::Whole => {
                let p = passes.clone();
                tops.push(m.thunk(root(0), vec![L(src)], move |m, a| {
                    let l = m_all(m, &p, a[0].clone().l());
                    V::Seq(m_take(m, l, None))
                }))
            }
            Mode::Stages => {
                let mut from = src;
                for i in 0..passes.len() {
                    let p = passes.clone();
                    let k = m.thunk(root(i), vec![L(from)], move |m, a| L(m_pass(m, i, &p[i], a[0].clone().l())));
                    tops.push(k.clone());
                    from = ML::Art(k)
                }
            }
        }
        Model { m, mode, passes: passes.clone(), input, tops }
    }
    fn stage(&mut self, i: usize, limit: Option<usize>) -> Seq<i64> {
        let k = self.tops[i].clone();
        let l = self.m.force(&k).l();
        m_take(&mut self.m, l, limit)
    }
    fn demand(&mut self, limit: Option<usize>) -> Seq<i64> {
        match self.mode {
            Mode::Plain => {
                let p = self.passes.clone();
                let l = m_all(&mut self.m, &p, ML::Art(self.input.clone()));
                m_take(&mut self.m, l, limit)
            }
            Mode::Whole => match {
                let k = self.tops[0].clone();
                self.m.force(&k)
            } {
                V::Seq(v) => v[..limit.unwrap_or(v.len()).min(v.len())].to_vec(),
                v => panic!("{:?}", v),
            },
            _ => self.stage(self.tops.len() - 1, limit),
        }
    }
}

fn node_key(n: &Node<K>) -> Key {
    (vec![name_of_str("input")], n.name.clone())
}
fn m_write(m: &mut Mini, e: &Edited<K>, i: usize) {
    let n = &e.nodes[i];
    let mut l = match n.next {
        None => ML::Nil,
        Some(j) => {
            let l = ML::Art(node_key(&e.nodes[j]));
            if e.nodes[j].shown {
                name(e.nodes[j].name.clone(), l)
            } else {
                l
            }
        }
    };
    for x in n.items.iter().rev() {
        l = match x {
            NameElse::Name(m) => name(m.clone(), l),
            NameElse::Else(x) => cons(x.0, l),
        }
    }
    m.ns(name_of_str("input"), |m| m.cell(n.name.clone(), L(l)));
}

fn plain(s: &Seq<K>) -> Seq<i64> {
    s.iter()
        .map(|x| match x {
            NameElse::Else(x) => NameElse::Else(x.0),
            NameElse::Name(n) => NameElse::Name(n.clone()),
        })
        .collect()
}

fn c26(c: &Case, cx: &mut Cx) -> R {
    let t = &mut Tape::new(&c.a);
    let mode = [Mode::Root, Mode::Plain, Mode::Whole, Mode::Stages][t.weighted(&[4, 1, 3, 3])];
    let n = 1 + t.weighted(&[6, 3, 1]);
    let mut passes: Vec<Pass> = (0..n).map(|_| pass(t)).collect();
    // (A fold leaves nothing to work on.)
    if let Some(i) = passes.iter().position(|p| matches!(p, Pass::Fold(_))) {
        passes.truncate(i + 1)
    }
    let passes = Rc::new(passes);
    let max = if t.big(40) { 40 } else { 8 };
    let mut e = Edited::<K>::new(t, max);
    cx.label_if(t.long, "long lists");
    cx.show(|| format!("{:?} of {:?} over {:?}", mode, passes, e.nodes));
    cx.digest(&(mode, &passes, format!("{:?}", e.nodes)));
    manage::init_dcg();
    let mut arts = e.build();
    let real = Real::new(mode, &passes, arts[0].clone().unwrap());
    let mut model = Model::new(mode, &passes, &e);
    let mut savings = false;
    for step in 0..c.b.len() + 1 {
        let mut limit = None;
        let mut look = None;
        if step > 0 {
            let more = crate::p_map::more(&c.b[step - 1]);
            let mut t = Tape::new(&more);
            let (nodes, said) = e.edit(&mut t);
            let before = counts();
            e.apply(&mut t, &nodes, &mut arts);
            ensure!(counts() == before, "step {}: {} calls {:?}", step, said, since(before, counts()));
            for i in nodes {
                m_write(&mut model.m, &e, i)
            }
            cx.show(|| format!("{}: {}", step, said));
            cx.digest(&said);
            match t.weighted(&[5, 2, 3, 1]) {
                0 => (),
                1 => continue,
                2 => limit = Some(t.below(6)),
                _ => look = Some(t.below(passes.len())),
            }
        } else if c.b.first().map_or(false, |b| b[3] % 3 == 0) {
            limit = Some(c.b[0][3] as usize / 3 % 6)
        }
        if mode == Mode::Plain && limit.is_some() && step % 2 == 0 {
            limit = None
        }
        cx.show(|| format!("   demand {:?} of {:?}", limit, look));
        cx.digest(&(limit, look));
        let (a, b) = (counts(), model.m.n);
        let (got, want) = match look {
            Some(i) if mode == Mode::Stages => (vec_of_list(force(&real.stages[i]), limit), model.stage(i, limit)),
            _ => (real.demand(limit), model.demand(limit)),
        };
        let (real_n, model_n) = (since(a, counts()), since(b, model.m.n));
        ensure!(plain(&got) == want, "step {}: {:?} instead of {:?}", step, got, want);
        for k in KINDS {
            ensure!(
                real_n[k as usize] <= model_n[k as usize],
                "step {}: {} calls of kind {:?}, where {} are due to what has changed",
                step, real_n[k as usize], k, model_n[k as usize]
            )
        }
        // Is that less than a run from scratch would take?
        if step > 0 && mode != Mode::Plain {
            let mut fresh = Model::new(mode, &passes, &e);
            match look {
                Some(i) if mode == Mode::Stages => fresh.stage(i, limit),
                _ => fresh.demand(limit),
            };
            let less = (0..5).any(|k| model_n[k] > 0 && 2 * model_n[k] <= fresh.m.n[k]);
            cx.label_if(less, "some of the work done again");
            cx.label_if(model_n == [0; 5], "none of the work done again");
            savings |= less;
        }
        cx.label_if(limit.is_some(), "a first part demanded");
    }
    cx.label(match mode {
        Mode::Plain => "outside computations",
        Mode::Root => "one computation",
        Mode::Whole => "taken apart inside",
        Mode::Stages => "a computation per pass",
    });
    for p in passes.iter() {
        cx.label(match p {
            Pass::Map(2, _) => "lazy map",
            Pass::Map(..) => "map",
            Pass::Filter(true, _) => "lazy filter",
            Pass::Filter(..) => "filter",
            Pass::Reverse => "reverse",
            Pass::Tree(..) => "tree",
            Pass::TreeFilterList(..) => "list filtered from tree",
            Pass::TreeFilter(..) => "tree filtered",
            Pass::Prune(_) => "prune",
            Pass::Copy(_) => "copy",
            Pass::Sort(_, 0, ..) => "sort",
            Pass::Sort(_, 1, ..) => "sort 2",
            Pass::Sort(..) => "sort 3",
            Pass::Fold(_) => "fold",
        })
    }
    cx.nontrivial = savings;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        a: (10, 120),
        b: (1, 10),
        quick: 60_000,
        thorough: 3_000_000,
        run: c26,
        rule: "Pipelines of one to three passes of fourteen kinds over a list of up to eight cells (one case in forty: up to forty), in one computation, in one per pass, or outside, demanded wholly or for a first part before and after each of up to ten edits (items and segments inserted, removed, replaced, brought back); the calls of each given function (mapped function, predicate, comparison, level, folding operation) are counted at each demand and compared with those of the same pass in a reference incremental engine; non-trivial: at some demand after an edit, some but at most half of a fresh run's calls of some kind were due",
        assumptions: &["each pass runs in a namespace of its own and is given lists of distinct names, as its naming demands", "links between cells never form a cycle", "fewer calls than the reference's are allowed"],
    }]
}
