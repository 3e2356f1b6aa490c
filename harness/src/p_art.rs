//! C21: equality of articulations, and mapped articulations.

use crate::fw::*;
use crate::p_list::{art_of, nm};
use crate::p_names::h;
use adapton::engine::*;
use adapton::macros::ProgPt;
use std::rc::Rc;

type V = i64;

fn g(k: usize, x: V) -> V {
    match k {
        0 => x.wrapping_add(1),
        1 => x.wrapping_mul(3),
        2 => x.rem_euclid(2),
        _ => 7,
    }
}
fn comp(k: usize, x: V) -> V {
    match k {
        0 => x * 10 + 1,
        1 => x * 10 + 2,
        _ => -x,
    }
}
const FNS: [&str; 3] = ["comp0", "comp1", "comp2"];
/// One program point with arguments of several types.
fn generic(id: NameChoice, ty: usize, x: V) -> Art<V> {
    fn go<A: 'static + Eq + std::hash::Hash + Clone + std::fmt::Debug>(id: NameChoice, r: V, a: A) -> Art<V> {
        thunk(id, ProgPt { symbol: "generic" }, Rc::new(Box::new(move |_: A, _: ()| r)), a, ())
    }
    let r = gen_value(ty, x);
    match ty {
        0 => go(id, r, x),
        1 => go(id, r, x as u64),
        2 => go(id, r, (x, x)),
        3 => go(id, r, vec![x; 2]),
        4 => go(id, r, x.to_string()),
        _ => go(id, r, (x as u64, x as u64)),
    }
}
fn gen_value(ty: usize, x: V) -> V {
    100 * ty as V + x
}
fn thunked(id: NameChoice, k: usize, x: V) -> Art<V> {
    thunk(id, ProgPt { symbol: FNS[k] }, Rc::new(Box::new(move |x: V, _: ()| comp(k, x))), x, ())
}

/// The same three names are used in each of these namespaces.
const HOMES: usize = 3;
fn home<T>(k: usize, f: impl FnOnce() -> T) -> T {
    match k / 3 {
        0 => f(),
        1 => ns(name_of_str("home"), f),
        _ => ns(name_of_str("home"), || ns(name_of_str("home"), f)),
    }
}
fn home_cell(k: usize, v: V) -> Art<V> {
    home(k, || cell(name_pair(name_of_str("cell"), name_of_usize(k % 3)), v))
}
fn home_thunk(k: usize, v: V) -> Art<V> {
    home(k, || thunked(NameChoice::Nominal(name_pair(name_of_str("thunk"), name_of_usize(k % 3))), k % 3, v))
}

/// What an articulation is; the argument, where there is one, comes last.
#[derive(Clone, Debug, PartialEq)]
enum What {
    /// A cell or thunk of that name.
    Cell(usize),
    Thunk(usize),
    Put(V),
    Eager(usize, V),
    Structural(usize, V),
    Naive(usize, V),
    /// An instance of a generic function, structural or native.
    Gen(bool, usize, V),
    /// Maps an entry; through text or not.
    Mapped(usize, usize, bool),
    /// Reads entries in a computation.
    Sum(Vec<usize>),
    /// Maps an entry within a computation.
    SumMapped(usize, usize),
    /// A computation that gives a mapped articulation, demanded twice.
    Given(usize, usize),
    Clone(usize),
}

struct Pool {
    what: Vec<What>,
    arts: Vec<Art<V>>,
    cells: Vec<V>,
    thunks: Vec<V>,
    naive: bool,
    /// Contents of cells at their making (cells cannot change there).
    made: Vec<V>,
}

fn map_art(a: &Art<V>, k: usize, text: bool) -> Art<V> {
    if text {
        let s: Art<String> = thunk_map(a.clone(), Rc::new(|x: V| format!("v{}", x)));
        thunk_map(s, Rc::new(move |s: String| g(k, s[1..].parse::<V>().unwrap())))
    } else {
        thunk_map(a.clone(), Rc::new(move |x: V| g(k, x)))
    }
}

impl Pool {
    fn root(&self, i: usize) -> usize {
        match self.what[i] {
            What::Clone(j) => self.root(j),
            _ => i,
        }
    }
    fn value(&self, i: usize) -> V {
        match &self.what[i] {
            What::Cell(_) if self.naive => self.made[i],
            What::Thunk(k) if self.naive => comp(*k % 3, self.made[i]),
            What::Cell(k) => self.cells[*k],
            What::Thunk(k) => comp(*k % 3, self.thunks[*k]),
            What::Put(v) => *v,
            What::Eager(k, x) | What::Structural(k, x) | What::Naive(k, x) => comp(*k, *x),
            What::Gen(_, ty, x) => gen_value(*ty, *x),
            What::Mapped(j, k, _) | What::SumMapped(j, k) | What::Given(j, k) => g(*k, self.value(*j)),
            What::Sum(js) => js.iter().fold(0, |a: V, j| a.wrapping_mul(5).wrapping_add(self.value(*j))),
            What::Clone(j) => self.value(*j),
        }
    }
    /// Must they be equal, must they differ, or is it open?
    fn same(&self, i: usize, j: usize) -> Option<bool> {
        use What::*;
        let (i, j) = (self.root(i), self.root(j));
        if i == j {
            return Some(true);
        }
        let (a, b) = (&self.what[i], &self.what[j]);
        match (a, b) {
            (Cell(x), Cell(y)) if !self.naive => Some(x == y),
            (Thunk(x), Thunk(y)) if !self.naive => Some(x == y),
            (Put(x), Put(y)) => Some(x == y),
            (Structural(k, x), Structural(l, y)) | (Naive(k, x), Naive(l, y)) => Some(k == l && x == y),
            (Mapped(x, k, t), Mapped(y, l, u)) => {
                // Open only if they map the same thing in the same way.
                if k != l || t != u || self.same(*x, *y) == Some(false) { Some(false) } else { None }
            }
            (Mapped(..), _) | (_, Mapped(..)) => Some(false),
            (Gen(s, t, x), Gen(s2, t2, y)) => Some(s == s2 && t == t2 && x == y),
            (Gen(..), Eager(..)) | (Eager(..), Gen(..)) => None,
            (Gen(..), _) | (_, Gen(..)) => Some(false),
            (Naive(..), Structural(..)) | (Structural(..), Naive(..)) => Some(false),
            (Sum(_), _) | (_, Sum(_)) | (SumMapped(..), _) | (_, SumMapped(..)) | (Given(..), _) | (_, Given(..)) => Some(false),
            _ if self.naive => None,
            (Eager(..), _) | (_, Eager(..)) => None,
            (Cell(_), _) | (_, Cell(_)) | (Thunk(_), _) | (_, Thunk(_)) => Some(false),
            (Put(_), _) | (_, Put(_)) => Some(false),
            _ => None,
        }
    }
    fn laws(&self, what: &str) -> R {
        let n = self.arts.len();
        let mut eq = vec![vec![false; n]; n];
        for i in 0..n {
            for j in 0..n {
                let e = self.arts[i] == self.arts[j];
                eq[i][j] = e;
                if let Some(s) = self.same(i, j) {
                    ensure!(e == s, "{}: #{} {:?} and #{} {:?} are equal: {}", what, i, self.what[i], j, self.what[j], e)
                }
                if e {
                    ensure!(h(&self.arts[i]) == h(&self.arts[j]), "{}: equal #{} {:?} and #{} {:?} hash differently", what, i, self.what[i], j, self.what[j]);
                    ensure!(self.value(i) == self.value(j), "{}: equal #{} {:?} and #{} {:?} differ in value", what, i, self.what[i], j, self.what[j]);
                }
            }
        }
        for i in 0..n {
            ensure!(eq[i][i], "{}: #{} is not equal to itself", what, i);
            for j in 0..n {
                ensure!(eq[i][j] == eq[j][i], "{}: #{} and #{} are equal one way only", what, i, j);
                for k in 0..n {
                    ensure!(!(eq[i][j] && eq[j][k]) || eq[i][k], "{}: equality of #{} {:?}, #{} {:?} and #{} {:?}", what, i, self.what[i], j, self.what[j], k, self.what[k])
                }
            }
        }
        Ok(())
    }
}

fn c21(c: &Case, cx: &mut Cx) -> R {
    let mut t = Tape::new(&c.a);
    let naive = t.chance(1, 4);
    if naive {
        manage::init_naive();
        cx.label("cache-free");
    } else {
        manage::init_dcg();
    }
    let mut p = Pool { what: vec![], arts: vec![], cells: vec![], thunks: vec![], naive, made: vec![] };
    for k in 0..HOMES * 3 {
        let v = t.small(2);
        p.cells.push(v);
        p.what.push(What::Cell(k));
        p.made.push(v);
        p.arts.push(home_cell(k, v));
    }
    for k in 0..HOMES * 3 {
        let v = t.small(2);
        p.thunks.push(v);
        p.what.push(What::Thunk(k));
        p.made.push(v);
        p.arts.push(home_thunk(k, v));
    }
    cx.digest(&(naive, &p.cells, &p.thunks));
    let (mut mapped, mut edits, mut seen_after) = (0, 0, 0);
    for (step, op) in c.b.iter().enumerate() {
        let more = crate::p_map::more(op);
        let mut t = Tape::new(&more);
        let k = t.weighted(&[5, 4, 1, 1, 1, 1, 2, 2, 2, 4, 1, 3, 1, 1, 1]);
        let what = format!("step {}", step);
        let n = p.arts.len();
        let i = t.below(n);
        let (f, v) = (t.below(4), t.small(2));
        let said;
        let new: Option<(What, Art<V>)> = match k {
            0 => {
                // Observe, in several ways.
                let a = p.arts[i].clone();
                let mode = t.below(3);
                let got = match mode {
                    0 => force(&a),
                    1 => force_cycle(&a, None),
                    _ => force_map(&a, move |_, v| g(f, v)),
                };
                let want = if mode == 2 { g(f, p.value(i)) } else { p.value(i) };
                said = format!("observe #{} {:?}", i, p.what[i]);
                ensure!(got == want, "{}: {} yields {} instead of {}", what, said, got, want);
                seen_after += (edits > 0 && matches!(p.what[p.root(i)], What::Mapped(..))) as u32;
                None
            }
            1 => {
                let text = t.chance(1, 3);
                said = format!("#{} maps #{} by g{} {}", n, i, f, text);
                mapped += 1;
                Some((What::Mapped(i, f, text), map_art(&p.arts[i], f, text)))
            }
            2 => {
                said = format!("#{} = put {}", n, v);
                Some((What::Put(v), put(v)))
            }
            3 => {
                said = format!("#{} = eager {} {}", n, f % 3, v);
                Some((What::Eager(f % 3, v), thunked(NameChoice::Eager, f % 3, v)))
            }
            4 => {
                said = format!("#{} = structural {} {}", n, f % 3, v);
                Some((What::Structural(f % 3, v), thunked(NameChoice::Structural, f % 3, v)))
            }
            5 => {
                said = format!("#{} = naive {} {}", n, f % 3, v);
                Some((What::Naive(f % 3, v), thunked(NameChoice::Naive, f % 3, v)))
            }
            6 | 7 | 8 => {
                let id = NameChoice::Nominal(name_pair(name_of_str("reader"), name_of_usize(step)));
                if k == 6 {
                    let js: Vec<usize> = (0..1 + t.below(3)).map(|_| t.below(n)).collect();
                    let arg: Vec<Art<V>> = js.iter().map(|j| p.arts[*j].clone()).collect();
                    said = format!("#{} sums {:?} in a computation", n, js);
                    let a = thunk(id, ProgPt { symbol: "sum" }, Rc::new(Box::new(|arg: Vec<Art<V>>, _: ()| arg.iter().fold(0, |a: V, x| a.wrapping_mul(5).wrapping_add(force(x))))), arg, ());
                    Some((What::Sum(js), a))
                } else if k == 7 {
                    said = format!("#{} maps #{} by g{} in a computation", n, i, f);
                    let a = thunk(id, ProgPt { symbol: "sum mapped" }, Rc::new(Box::new(|(f, a): (usize, Art<V>), _: ()| force(&map_art(&a, f, false)))), (f, p.arts[i].clone()), ());
                    Some((What::SumMapped(i, f), a))
                } else {
                    said = format!("#{} gives #{} mapped by g{}", n, i, f);
                    let inner: Art<Art<V>> = thunk(
                        NameChoice::Nominal(name_pair(name_of_str("giver"), name_of_usize(step))),
                        ProgPt { symbol: "giver" },
                        Rc::new(Box::new(|(f, a): (usize, Art<V>), _: ()| map_art(&a, f, false))),
                        (f, p.arts[i].clone()),
                        (),
                    );
                    let a = thunk(id, ProgPt { symbol: "given" }, Rc::new(Box::new(|a: Art<Art<V>>, _: ()| force(&force(&a)))), inner, ());
                    Some((What::Given(i, f), a))
                }
            }
            9 if !naive => {
                let j = t.below(3 * HOMES);
                said = format!("cell {} becomes {}", j, v);
                edits += (p.cells[j] != v) as u32;
                p.cells[j] = v;
                if t.chance(1, 3) {
                    home_cell(j, v);
                } else {
                    set(&p.arts[j], v);
                }
                None
            }
            10 if !naive => {
                let j = t.below(3 * HOMES);
                said = format!("thunk {} gets {}", j, v);
                edits += (p.thunks[j] != v) as u32;
                p.thunks[j] = v;
                home_thunk(j, v);
                None
            }
            11 => {
                said = format!("#{} = #{} again", n, i);
                Some((What::Clone(i), p.arts[i].clone()))
            }
            12 => {
                // The same cell or thunk, made again, is the same.
                let j = t.below(3 * HOMES);
                said = format!("#{} = cell {} made again", n, j);
                Some((What::Cell(j), home_cell(j, p.cells[j])))
            }
            14 => {
                let (s, ty) = (t.chance(1, 2), t.below(6));
                said = format!("#{} = instance {} at {}, structural: {}", n, ty, v, s);
                Some((What::Gen(s, ty, v), generic(if s { NameChoice::Structural } else { NameChoice::Naive }, ty, v)))
            }
            _ => {
                let j = t.below(3 * HOMES);
                said = format!("#{} = thunk {} made again", n, j);
                Some((What::Thunk(j), home_thunk(j, p.thunks[j])))
            }
        };
        cx.show(|| said.clone());
        cx.digest(&said);
        if let Some((w, a)) = new {
            p.made.push(match &w {
                What::Cell(j) => p.cells[*j],
                What::Thunk(j) => p.thunks[*j],
                _ => 0,
            });
            p.what.push(w);
            p.arts.push(a);
        }
        if step % 8 == 7 {
            p.laws(&what)?
        }
    }
    p.laws("at the end")?;
    for i in 0..p.arts.len() {
        let (got, want) = (force(&p.arts[i]), p.value(i));
        ensure!(got == want, "at the end, #{} {:?} yields {} instead of {}", i, p.what[i], got, want);
    }
    // Articulations of structured content, by kind.
    let mut t = Tape::new(&c.a);
    let content = (0..t.below(3)).map(|i| format!("{}", i)).collect::<Vec<String>>();
    let (a, kind) = art_of(&mut t, name_pair(name_of_str("structured"), nm(0)), content.clone());
    let m: Art<usize> = thunk_map(a.clone(), Rc::new(|v: Vec<String>| v.len()));
    ensure!(force(&a) == content && force(&m) == content.len(), "structured content of {}", kind);
    ensure!(a == a.clone() && m == m.clone() && h(&m) == h(&m.clone()), "clones of {} differ", kind);
    cx.label_if(mapped > 0, "mapped");
    cx.label_if(seen_after > 0, "mapped, observed after an edit");
    cx.label_if(p.what.iter().any(|w| matches!(w, What::Given(..))), "given by a computation");
    cx.nontrivial = mapped > 0;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C21",
        a: (4, 20),
        b: (2, 28),
        quick: 150_000,
        thorough: 5_000_000,
        run: c21,
        rule: "A growing pool of articulations of every kind, mapped ones (of mapped ones, through another type, within computations and given by them), observed in three modes between edits, under either engine; the laws of equality over all pairs and triples; non-trivial: something was mapped",
        assumptions: &["mapping functions have no state of their own"],
    }]
}
