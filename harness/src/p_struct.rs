//! C04: identity of articulations allocated in and around structural
//! regions, however those nest with namespaces and computations.

use crate::fw::*;
use crate::p_names::h;
use crate::sess::flags;
use adapton::engine::*;
use adapton::macros::*;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, Hash)]
enum It {
    Cell(usize, usize),
    /// Function, argument, variant of the name.
    Thunk(usize, usize, usize),
    /// Structural by choice, wherever it is.
    Choice(usize, usize),
    Structural(Vec<It>),
    Ns(usize, Vec<It>),
    Comp(usize, Vec<It>),
    Demand(usize),
}
fn items(t: &mut Tape, d: usize, n: &mut usize) -> Vec<It> {
    (0..1 + t.below(4))
        .map(|_| {
            *n += 1;
            let r = if d > 0 && *n < 25 { 1 } else { 0 };
            match t.weighted(&[5, 4, 2, 4 * r, 2 * r, 3 * r, 2]) {
                0 => It::Cell(t.below(3), t.below(2)),
                1 => It::Thunk(t.below(5), t.below(3), t.below(2)),
                2 => It::Choice(t.below(5), t.below(3)),
                3 => It::Structural(items(t, d - 1, n)),
                4 => It::Ns(t.below(2), items(t, d - 1, n)),
                5 => It::Comp(*n, items(t, d - 1, n)),
                _ => It::Demand(t.below(30)),
            }
        })
        .collect()
}

/// Values and arguments that all print alike.
#[derive(Clone, PartialEq, Eq, Hash)]
struct Q(usize);
impl std::fmt::Debug for Q {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Q")
    }
}

#[derive(Clone, PartialEq, Debug)]
enum Key {
    Nom(String),
    Str(String),
}
struct Rec {
    art: Art<Q>,
    path: Vec<usize>,
    key: Key,
    value: usize,
}
#[derive(Default)]
struct Env {
    depth: usize,
    path: Vec<usize>,
    recs: Vec<Rec>,
    wrong: Option<String>,
    nested: bool,
    inside: bool,
    input: Option<Art<usize>>,
}
type E = Rc<RefCell<Env>>;

fn plus(a: usize) -> usize {
    a + 100
}
fn times(a: usize) -> usize {
    a * 7 + 200
}
fn gen<T: std::hash::Hash + Eq + std::fmt::Debug + Clone + Into<i64> + 'static>(a: T) -> usize {
    300 + 10 * std::mem::size_of::<T>() + a.into() as usize
}
fn quiet(a: usize) -> usize {
    a * 3 + 900
}
fn value(f: usize, a: usize) -> usize {
    match f {
        0 => plus(a),
        1 => times(a),
        2 => gen(a as u8),
        3 => quiet(a),
        _ => gen(a as u32),
    }
}
fn make(c: NameChoice, f: usize, a: usize) -> Art<Q> {
    match f {
        0 => thunk(c, prog_pt!("plus"), Rc::new(Box::new(|a: usize, ()| Q(plus(a)))), a, ()),
        1 => thunk(c, prog_pt!("times"), Rc::new(Box::new(|a: usize, ()| Q(times(a)))), a, ()),
        // One program point, two instances.
        2 => thunk(c, prog_pt!("gen"), Rc::new(Box::new(|a: u8, ()| Q(gen(a)))), a as u8, ()),
        3 => thunk(c, prog_pt!("quiet"), Rc::new(Box::new(|a: Q, ()| Q(quiet(a.0)))), Q(a), ()),
        _ => thunk(c, prog_pt!("gen"), Rc::new(Box::new(|a: u32, ()| Q(gen(a)))), a as u32, ()),
    }
}

fn record(e: &E, art: Art<Q>, nominal: Option<String>, content: String, value: usize) {
    let mut e = e.borrow_mut();
    let key = match nominal {
        Some(n) if e.depth == 0 => Key::Nom(n),
        _ => Key::Str(content),
    };
    let path = e.path.clone();
    e.recs.push(Rec { art, path, key, value })
}

#[derive(Clone)]
struct Body(usize, E, Rc<Vec<It>>);
impl PartialEq for Body {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for Body {}
impl std::hash::Hash for Body {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl std::fmt::Debug for Body {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Body({})", self.0)
    }
}

fn exec(e: &E, its: &[It]) {
    for it in its {
        match it {
            It::Cell(v, k) => {
                let n = format!("c{}-{}", v, k);
                let a = cell(name_of_string(n.clone()), Q(*v));
                record(e, a, Some(n), format!("cell {}", v), *v)
            }
            It::Thunk(f, a, k) => {
                let n = format!("t{}-{}-{}", f, a, k);
                let t = make(NameChoice::Nominal(name_of_string(n.clone())), *f, *a);
                record(e, t, Some(n), format!("thunk {} {}", f, a), value(*f, *a))
            }
            It::Choice(f, a) => {
                let t = make(NameChoice::Structural, *f, *a);
                record(e, t, None, format!("thunk {} {}", f, a), value(*f, *a))
            }
            It::Structural(its) => {
                {
                    let mut e = e.borrow_mut();
                    e.nested |= e.depth > 0;
                    e.depth += 1
                }
                structural(|| exec(e, its));
                e.borrow_mut().depth -= 1
            }
            It::Ns(k, its) => {
                e.borrow_mut().path.push(*k);
                ns(name_of_usize(*k), || exec(e, its));
                e.borrow_mut().path.pop();
            }
            It::Comp(id, its) => {
                // Runs where it was allocated, by names or structurally as
                // the one who demands it.
                let path = e.borrow().path.clone();
                let b = Body(*id, e.clone(), Rc::new(its.clone()));
                let t = thunk(
                    NameChoice::Nominal(name_of_usize(1000 + *id)),
                    prog_pt!("comp"),
                    Rc::new(Box::new(|(b, _): (Body, Vec<usize>), path: Vec<usize>| {
                        let input = b.1.borrow().input.clone().unwrap();
                        let v = force(&input);
                        let was = std::mem::replace(&mut b.1.borrow_mut().path, path);
                        b.1.borrow_mut().inside = true;
                        exec(&b.1, &b.2);
                        b.1.borrow_mut().path = was;
                        v + b.0
                    })),
                    (b, path.clone()),
                    path,
                );
                let want = *id + force(&e.borrow().input.clone().unwrap());
                let got = force(&t);
                if got != want {
                    e.borrow_mut().wrong.get_or_insert(format!("computation {} yields {}, not {}", id, got, want));
                }
            }
            It::Demand(k) => {
                let x = {
                    let e = e.borrow();
                    if e.recs.is_empty() {
                        None
                    } else {
                        let r = &e.recs[k % e.recs.len()];
                        Some((r.art.clone(), r.value))
                    }
                };
                if let Some((a, v)) = x {
                    let got = force(&a).0;
                    if got != v {
                        e.borrow_mut().wrong.get_or_insert(format!("{:?} yields {}, not {}", a, got, v));
                    }
                }
            }
        }
    }
}

fn verify(e: &E) -> R {
    let e = e.borrow();
    if let Some(w) = &e.wrong {
        return Err(w.clone());
    }
    for r in &e.recs {
        let v = force(&r.art).0;
        ensure!(v == r.value, "{:?} yields {}, not {}", r.art, v, r.value);
        for s in &e.recs {
            let same = r.art == s.art;
            if r.key == s.key && r.path == s.path {
                ensure!(
                    same && h(&r.art) == h(&s.art),
                    "both {:?} in {:?}, but {:?} and {:?} are different articulations",
                    r.key,
                    r.path,
                    r.art,
                    s.art
                )
            } else if r.key != s.key {
                ensure!(!same, "{:?} and {:?} share the articulation {:?}", r.key, s.key, r.art)
            }
        }
    }
    Ok(())
}

/// The tape's script, run twice over, with an edit between.
pub fn identity(t: &mut Tape, cx: &mut Cx) -> R {
    manage::init_dcg();
    let whole = t.chance(1, 4);
    let its = items(t, 4, &mut 0);
    let again = items(t, 2, &mut 0);
    cx.digest(&format!("{} {:?} {:?}", whole, its, again));
    cx.show(|| format!("throughout={} {:?} then {:?}", whole, its, again));
    cx.label("identities");
    let e: E = Default::default();
    e.borrow_mut().input = Some(cell(name_of_str("input"), 1));
    if whole {
        flags(|f| f.ignore_nominal_use_structural = true);
        e.borrow_mut().depth = 1;
    }
    exec(&e, &its);
    verify(&e)?;
    // What runs again runs as it did before.
    set(&e.borrow().input.clone().unwrap(), 2);
    exec(&e, &again);
    exec(&e, &its);
    verify(&e)?;
    ensure!(
        flags(|f| f.ignore_nominal_use_structural) == whole,
        "after all regions have ended, the engine {} names",
        if whole { "uses" } else { "ignores" }
    );
    let e2 = e.borrow();
    cx.label_if(e2.nested, "nested structural regions");
    cx.label_if(e2.inside, "allocations within computations");
    let s = e2.recs.iter().filter(|r| matches!(r.key, Key::Str(_))).count();
    cx.nontrivial = s >= 2 && (whole || s < e2.recs.len());
    Ok(())
}

/// Types whose values hash alike.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct W(u64);
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct X(u64);
pub trait Like: Copy + Eq + std::hash::Hash + std::fmt::Debug + 'static {
    const K: usize;
    fn of(n: u64) -> Self;
    fn n(self) -> u64;
}
macro_rules! like {
    ($($t:ident $k:expr, $n:ident $of:expr, $s:ident $to:expr;)*) => { $(impl Like for $t {
        const K: usize = $k;
        fn of($n: u64) -> Self { $of }
        fn n(self) -> u64 { let $s = self; $to }
    })* }
}
like! {
    u64 0, n n, s s;
    i64 1, n n as i64, s s as u64;
    usize 2, n n as usize, s s as u64;
    isize 3, n n as isize, s s as u64;
    W 4, n W(n), s s.0;
    X 5, n X(n), s s.0;
}
type Probe = Box<dyn Fn() -> u64>;
fn held<T: Like>(a: Art<T>) -> (String, Probe) {
    (format!("{:?}", a), Box::new(move || force(&a).n()))
}
fn acell<T: Like>(name: &'static str, v: u64) -> (String, Probe) {
    held(cell(name_of_str(name), T::of(v)))
}
fn athunk<A: Like, B: Like>(c: NameChoice, v: u64) -> (String, Probe) {
    held(thunk(
        c,
        prog_pt!("alike"),
        Rc::new(Box::new(|a: A, ()| B::of(1000 * (A::K as u64 + 1) + 100 * B::K as u64 + a.n()))),
        A::of(v),
        (),
    ))
}
macro_rules! pick {
    ($k:expr, $t:ident => $e:expr) => {
        match $k {
            0 => { type $t = u64; $e }
            1 => { type $t = i64; $e }
            2 => { type $t = usize; $e }
            3 => { type $t = isize; $e }
            4 => { type $t = W; $e }
            _ => { type $t = X; $e }
        }
    };
}

/// Contents that hash alike at several types, and one generic function at
/// several arguments and results, allocated structurally, within a namespace
/// (whose content no case but this shares).
pub fn typed(t: &mut Tape, space: Name) -> Result<String, String> {
    let ops: Vec<_> = (0..2 + t.below(6))
        .map(|_| (t.below(4), t.below(6), t.below(6), t.below(2) as u64))
        .collect();
    let show = format!("structurally allocate at types that hash alike: {:?}", ops);
    let mut all: Vec<(String, String, u64, Probe)> = Vec::new();
    for &(kind, a, b, v) in &ops {
        let ((art, probe), key, want) = ns(space.clone(), || match kind {
            0 => {
                let r = structural(|| pick!(a, A => acell::<A>(["one", "other"][b % 2], v)));
                (r, format!("cell of type {} holding {}", a, v), v)
            }
            _ => {
                let go = |c: NameChoice| pick!(a, A => pick!(b, B => athunk::<A, B>(c, v)));
                let r = match kind {
                    1 => go(NameChoice::Structural),
                    2 => structural(|| go(NameChoice::Nominal(name_of_str("ignored")))),
                    _ => structural(|| go(NameChoice::Structural)),
                };
                let w = 1000 * (a as u64 + 1) + 100 * b as u64 + v;
                (r, format!("thunk from type {} to type {} at {}", a, b, v), w)
            }
        });
        for (other, key2, _, _) in &all {
            ensure!(
                (*other == art) == (*key2 == key),
                "allocated structurally, a {} is {}, and a {} is {}",
                key,
                art,
                key2,
                other
            )
        }
        let got = probe();
        ensure!(got == want, "a {}, allocated structurally, yields {} instead of {}", key, got, want);
        all.push((art, key, want, probe));
    }
    for (_, key, want, probe) in &all {
        let got = probe();
        ensure!(got == *want, "a {}, allocated structurally, later yields {} instead of {}", key, got, want);
    }
    Ok(show)
}

/// Many articulations of long content, most of which differs at one place.
pub fn wide(t: &mut Tape, cx: &mut Cx) -> R {
    manage::init_dcg();
    let throughout = t.chance(1, 3);
    flags(|f| f.ignore_nominal_use_structural = throughout);
    let len = [1, 3, 9, 17, 33, 65, 129, 300][t.below(8)];
    let most = [4, 12, 40, 300][t.below(4)];
    let n = 2 + t.below(most);
    let kinds = 1 + t.below(4);
    let seed = t.raw() as usize;
    let rnd = |a: usize, b: usize, m: usize| (h(&(seed, a, b)) % m as u64) as usize;
    cx.digest(&(throughout, len, n, kinds, seed));
    cx.show(|| format!("{} articulations of contents of length {}, kinds {}, seed {}, throughout {}", n, len, kinds, seed, throughout));
    let region = |f: &dyn Fn() -> Art<Vec<u16>>| if throughout { f() } else { structural(f) };
    let region_s = |f: &dyn Fn() -> Art<String>| if throughout { f() } else { structural(f) };
    // By kind and content.
    let mut vecs: Vec<(usize, Vec<u16>, Art<Vec<u16>>)> = vec![];
    let mut strs: Vec<(usize, String, Art<String>)> = vec![];
    for i in 0..n {
        let mut v = vec![0u16; len];
        // The length differs, or one place does, or nothing.
        match rnd(i, 0, 6) {
            0 => (),
            1 => v.truncate(rnd(i, 1, len)),
            _ => v[rnd(i, 2, len)] = 1 + rnd(i, 3, 3) as u16,
        }
        let kind = rnd(i, 4, kinds);
        let s: String = v.iter().map(|k| char::from(b'a' + *k as u8)).collect();
        let nm = name_of_usize(i);
        match kind {
            0 => vecs.push((0, v.clone(), region(&|| cell(nm.clone(), v.clone())))),
            1 => {
                let mk = |v: Vec<u16>| {
                    thunk(NameChoice::Nominal(nm.clone()), prog_pt!("wide"), Rc::new(Box::new(|v: Vec<u16>, ()| v)), v, ())
                };
                vecs.push((1, v.clone(), region(&|| mk(v.clone()))))
            }
            2 => strs.push((2, s.clone(), region_s(&|| cell(nm.clone(), s.clone())))),
            _ => {
                let mk = |s: String| {
                    thunk(NameChoice::Structural, prog_pt!("wide text"), Rc::new(Box::new(|s: String, ()| s)), s, ())
                };
                strs.push((3, s.clone(), region_s(&|| mk(s.clone()))))
            }
        }
        if rnd(i, 5, 4) == 0 {
            if let Some((_, v, a)) = vecs.last() {
                let got = force(a);
                ensure!(got == *v, "allocated structurally, {:?} yields {:?}", v, got);
            }
        }
    }
    let mut shared = 0;
    macro_rules! judge {
        ($all:expr) => {
            for (i, (k, v, a)) in $all.iter().enumerate() {
                let got = force(a);
                ensure!(got == *v, "allocated structurally with others, {:?} (kind {}) yields {:?}", v, k, got);
                for (k2, v2, a2) in &$all[..i] {
                    let same = k == k2 && v == v2;
                    ensure!((a == a2) == same, "articulations of {:?} (kind {}) and {:?} (kind {}): equal is {}", v, k, v2, k2, a == a2);
                    if same {
                        ensure!(h(a) == h(a2), "equal articulations of {:?} hash differently", v);
                        shared += 1
                    }
                }
            }
        };
    }
    judge!(vecs);
    judge!(strs);
    cx.label("long content");
    cx.label_if(n > 100, "more than 100 articulations");
    cx.nontrivial = shared > 0;
    Ok(())
}
