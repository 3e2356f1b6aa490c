//! C25: each convenience form next to the primitives it abbreviates.
//!
//! One history runs twice, each time in a fresh engine: once through the
//! macros and once through the primitives.  Both must yield the values of
//! a pure model, and agree on the identity of articulations, on the calls
//! of user functions and on the number of nodes.

use crate::fw::*;
use adapton::engine::*;
use adapton::macros::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

type V = i64;

thread_local!(static CALLS: RefCell<BTreeMap<&'static str, u64>> = RefCell::new(BTreeMap::new()));
fn called(f: &'static str) {
    CALLS.with(|c| *c.borrow_mut().entry(f).or_insert(0) += 1)
}

// ------------------------------------------------------ user functions

fn one(x: V) -> V {
    called("one");
    2 * x + 1
}
fn two(x: V, y: V) -> V {
    called("two");
    10 * x - y
}
fn three(x: V, s: String, z: bool) -> V {
    called("three");
    100 * x + 10 * s.len() as V + z as V
}
fn read(a: Art<V>, k: V) -> V {
    called("read");
    3 * get!(a) - k
}
fn apply(x: V, y: V, f: Rc<dyn Fn(V, V) -> V>) -> V {
    called("apply");
    f(x, y) + 1000
}
fn apply2(x: V, f: Rc<dyn Fn(V) -> V>, g: Rc<dyn Fn(V) -> V>) -> V {
    called("apply2");
    10 * f(x) + g(x)
}
fn inst<T: Default + std::fmt::Debug>(x: V, y: V) -> V {
    called("inst");
    7 * x + y + 100 * std::mem::size_of::<T>() as V
}
fn inst1<T: Default, U>(x: V, f: Rc<dyn Fn(V) -> V>) -> V {
    called("inst1");
    f(x) + 100 * std::mem::size_of::<T>() as V + 10 * std::mem::size_of::<U>() as V
}
fn gen_arg<T: std::fmt::Debug>(x: T, y: V) -> V {
    called("gen_arg");
    // "i64", "u64" or "(i64, i64)"
    1000 * std::any::type_name::<T>().as_bytes()[0] as V + y + format!("{:?}", x).len() as V
}
mod other {
    pub fn two(x: i64, y: i64) -> i64 {
        super::called("other::two");
        x - 10 * y
    }
}
fn cyclic(k: V, n: Name) -> V {
    called("cyclic");
    let m = n.clone();
    let me: Art<V> = thunk!([Some(n)]? cyclic; k:k, n:m);
    get!(me, 7) + k
}
fn cyclic_hand(k: V, n: Name) -> Art<V> {
    prim(Some(n.clone()), "cyclic by hand", (k, n), |(k, n)| {
        called("cyclic");
        force_cycle(&cyclic_hand(k, n), Some(7)) + k
    })
}

// -------------------------------------------------------------- model

/// What an articulation computes from.
#[derive(Clone, Debug, PartialEq, Eq)]
enum Ex {
    Val(V),
    One(V),
    Two(V, V),
    Max(V, V),
    Three(V, usize, bool),
    Read(usize, V),
    Pairwise(usize, usize),
    Apply(V, V),
    Apply2(V),
    Inst(usize, V, V),
    Inst1(V),
    GenArg(usize, V),
    OtherTwo(V, V),
    Cyclic(V),
    /// A computation that goes through a form itself, from an input.
    Inner(usize, usize, V),
}

/// What a handle is: a named thing, or a value of its own.
#[derive(Clone, Debug, PartialEq)]
enum What {
    Named(usize, usize, bool),
    Own(Ex),
}

#[derive(Clone)]
struct World {
    inputs: Vec<V>,
    slots: BTreeMap<(usize, usize, bool), Ex>,
    what: Vec<What>,
}

const SIZES: [V; 3] = [1, 2, 8];
const TEXT: [&str; 3] = ["", "a", "text"];

impl World {
    fn ex(&self, e: &Ex) -> V {
        match e {
            Ex::Val(v) => *v,
            Ex::One(x) => 2 * x + 1,
            Ex::Two(x, y) => 10 * x - y,
            Ex::Max(x, y) => *x.max(y),
            Ex::Three(x, s, z) => 100 * x + 10 * TEXT[*s].len() as V + *z as V,
            Ex::Read(i, k) => 3 * self.inputs[*i] - k,
            Ex::Pairwise(i, j) => self.inputs[*i] * 2 + self.inputs[*j],
            Ex::Apply(x, y) => x * 5 + y + 1000,
            Ex::Apply2(x) => 10 * (x + 3) - x,
            Ex::Inst(t, x, y) => 7 * x + y + 100 * SIZES[*t],
            Ex::Inst1(x) => x + 3 + 100 * 4 + 10 * 2,
            Ex::GenArg(t, y) => match t {
                0 => 1000 * b'i' as V + y + format!("{:?}", y).len() as V,
                1 => 1000 * b'u' as V + y + format!("{:?}", y).len() as V,
                _ => 1000 * b'(' as V + y + format!("{:?}", (y, y)).len() as V,
            },
            Ex::OtherTwo(x, y) => x - 10 * y,
            Ex::Cyclic(k) => 7 + k,
            Ex::Inner(form, i, k) => {
                let v = self.inputs[*i];
                match form {
                    0 | 1 | 2 | 3 | 6 | 7 => 10 * v - k,
                    4 => 7 * v + k + 100 * 2,
                    5 => 2 * v + 1,
                    8 => v * v + 10 * k,
                    9 => v.min(3),
                    _ => (v - k) * 3,
                }
            }
        }
    }
    fn value(&self, w: &What) -> V {
        match w {
            What::Named(f, s, n) => self.ex(&self.slots[&(*f, *s, *n)]),
            What::Own(e) => self.ex(e),
        }
    }
}

// --------------------------------------------------------------- forms

/// The name of a slot.  Identifier forms have one slot.
fn nm(form: usize, slot: usize) -> Name {
    match slot {
        0 => name_pair(name_of_str("form"), name_of_usize(form)),
        1 => name_pair(name_of_usize(form), name_of_str("form")),
        _ => name_pair(name_pair(name_unit(), name_of_usize(form)), name_of_isize(-(slot as isize))),
    }
}

struct Args {
    x: V,
    y: V,
    slot: usize,
    k: usize,
    some: bool,
    z: bool,
}

const FORMS: usize = 38;

/// What the form makes: whether it has a name, and what it computes.
fn ex(form: usize, a: &Args) -> (bool, Ex) {
    let n = a.some;
    match form {
        0 => (n, Ex::Val(a.x)),
        1 | 36 => (true, Ex::Val(a.x)),
        2 => (false, Ex::Val(a.x)),
        3 => (n, Ex::Two(a.x, a.y)),
        4 => (n, Ex::Three(a.x, a.k, a.z)),
        5 => (n, Ex::Max(a.x, a.y)),
        6 => (n, Ex::Read(a.k, a.y)),
        7 => (n, Ex::Apply(a.x, a.y)),
        8 => (true, Ex::Two(a.x, a.y)),
        9 => (true, Ex::Max(a.x, a.y)),
        10 => (true, Ex::Two(a.x, a.y)),
        11 => (true, Ex::Apply2(a.x)),
        12 => (n, Ex::Pairwise(a.slot % 2, 1)),
        13 => (true, Ex::Pairwise(0, 1)),
        14 => (false, Ex::Read(a.k, a.y)),
        15 => (n, Ex::Two(a.x, a.y)),
        16 => (n, Ex::Apply(a.x, a.y)),
        17 => (true, Ex::Read(a.k, a.y)),
        18 => (true, Ex::Apply(a.x, a.y)),
        19 | 20 | 21 => (true, Ex::Inst(form - 19, a.x, a.y)),
        22 => (true, Ex::Two(a.x, a.y)),
        23 => (false, Ex::Inst(a.k, a.x, a.y)),
        24 => (false, Ex::Two(a.x, a.y)),
        25 => (true, Ex::Inst1(a.x)),
        26 => (true, Ex::Inst(a.slot, a.x, a.y)),
        27 => (true, Ex::Two(a.x, a.y)),
        28 => (true, Ex::Val(a.x)),
        29 => (true, Ex::Pairwise(0, 1)),
        30 => (true, Ex::Pairwise(1, 0)),
        31 => (false, Ex::GenArg(a.k, a.y.abs())),
        32 => (false, Ex::OtherTwo(a.x, a.y)),
        33 => (true, Ex::Cyclic(a.slot as V)),
        34 => (true, Ex::Inner(a.x.rem_euclid(11) as usize, a.k, a.y)),
        35 => (n, Ex::One(a.x)),
        _ => (false, Ex::One(a.x)),
    }
}
fn slot_of(form: usize, a: &Args) -> usize {
    match form {
        1 | 8 | 9 | 13 | 28 | 29 | 30 => 0,
        // One name for each inner form.
        34 => a.x.rem_euclid(11) as usize,
        _ => a.slot,
    }
}

/// A name of its own, for the forms that count.
fn fresh() -> Name {
    thread_local!(static N: std::cell::Cell<usize> = std::cell::Cell::new(0));
    N.with(|n| {
        n.set(n.get() + 1);
        name_pair(name_of_str("fresh"), name_of_usize(n.get()))
    })
}
fn prim<A: 'static + Eq + std::hash::Hash + Clone + std::fmt::Debug>(n: Option<Name>, s: &'static str, a: A, f: impl Fn(A) -> V + 'static) -> Art<V> {
    let id = match n {
        Some(n) => NameChoice::Nominal(n),
        None => NameChoice::Eager,
    };
    thunk(id, ProgPt { symbol: s }, Rc::new(Box::new(move |a: A, _: ()| f(a))), a, ())
}
fn prim_s<A: 'static + Eq + std::hash::Hash + Clone + std::fmt::Debug>(s: &'static str, a: A, f: impl Fn(A) -> V + 'static) -> Art<V> {
    thunk(NameChoice::Structural, ProgPt { symbol: s }, Rc::new(Box::new(move |a: A, _: ()| f(a))), a, ())
}
fn times() -> Rc<dyn Fn(V, V) -> V> {
    Rc::new(|x, y| x * 5 + y)
}
fn plus3() -> Rc<dyn Fn(V) -> V> {
    Rc::new(|x| x + 3)
}
fn minus() -> Rc<dyn Fn(V) -> V> {
    Rc::new(|x| -x)
}

/// Goes through the form.  Gives the articulation (if it gives one) and
/// the value (if it demands one).
fn by_macro(form: usize, a: &Args, inputs: &[Art<V>]) -> (Option<Art<V>>, Option<V>) {
    let (x, y, k, z) = (a.x, a.y, a.k, a.z);
    let n = || nm(form, slot_of(form, a));
    let on = || if a.some { Some(n()) } else { None };
    let both = |p: (Art<V>, V)| (Some(p.0), Some(p.1));
    let art = |a: Art<V>| (Some(a), None);
    let (i0, i1) = (inputs[0].clone(), inputs[1].clone());
    let ik = inputs[k].clone();
    match form {
        0 => art(cell!([on()]? x)),
        1 => art(cell!([cellname] x)),
        2 => art(cell!(x)),
        3 => art(thunk!([on()]? two; x:x, y:y)),
        4 => art(thunk!([on()]? three; x:x, s:TEXT[k].to_string(), z:z)),
        5 => art(thunk!([on()]? |x: V, y: V| { called("max"); if x > y { x } else { y } }; x:x, y:y)),
        6 => art(thunk!([on()]? read; a:ik, k:y)),
        7 => art(thunk!([on()]? apply; x:x, y:y ;; f:times())),
        8 => art(thunk!([thunkname] two; x:x, y:y)),
        9 => art(thunk!([thunkname2] |x: V, y: V| { called("max"); if x > y { x } else { y } }; x:x, y:y)),
        10 => art(thunk!(n() =>> two, x:x, y:y)),
        11 => art(thunk!(n() =>> apply2, x:x ;; f:plus3(), g:minus())),
        12 => {
            let (p, q) = if a.slot % 2 == 0 { (i0, i1) } else { (i1.clone(), i1) };
            art(thunk![[on()]? { called("body"); get!(p) * 2 + get!(q) }])
        }
        13 => art(thunk![[bodyname] { called("body"); get!(i0) * 2 + get!(i1) }]),
        14 => art(thunk![{ called("read"); 3 * get!(ik) - y }]),
        15 => both(memo!([on()]? two; x:x, y:y)),
        16 => both(memo!([on()]? apply; x:x, y:y ;; f:times())),
        // These give the value only; the name leads to the thunk as well, which then has run already.
        17 => {
            let v = memo!(n() =>> read, a:ik.clone(), k:y);
            (Some(thunk!(n() =>> read, a:ik, k:y)), Some(v))
        }
        18 => {
            let v = memo!(n() =>> apply, x:x, y:y ;; f:times());
            (Some(thunk!(n() =>> apply, x:x, y:y ;; f:times())), Some(v))
        }
        19 => both(eager!(n() =>> inst::<u8>, x:x, y:y)),
        20 => both(eager!(n() =>> inst::<u16>, x:x, y:y)),
        21 => both(eager!(n() =>> inst::<u64>, x:x, y:y)),
        22 => both(eager!(n() =>> two, x:x, y:y)),
        23 => both(match k {
            0 => eager!(inst::<u8>, x:x, y:y),
            1 => eager!(inst::<u16>, x:x, y:y),
            _ => eager!(inst::<u64>, x:x, y:y),
        }),
        24 => both(eager!(two, x:x, y:y)),
        25 => both(eager!(n() =>> inst1 =>> <u32, u16>, x:x ;; f:plus3())),
        26 => art(match a.slot {
            0 => cell_call!(n() =>> inst::<u8>, x:x, y:y),
            1 => cell_call!(n() =>> inst::<u16>, x:x, y:y),
            _ => cell_call!(n() =>> inst::<u64>, x:x, y:y),
        }),
        27 => art(cell_call!(n() =>> two, x:x, y:y)),
        28 => art(let_cell! { lc = x; ld = lc.clone(); get!(ld) }),
        29 => art(let_thunk! { lt = { called("body"); get!(i0) * 2 + get!(i1) }; lt }),
        30 => {
            let (i0b, i1b) = (i0.clone(), i1.clone());
            let (t, u, v, w) = let_memo! { v = (t) = { called("body"); get!(i1) * 2 + get!(i0) }; w = (u) = { get!(i1b) + get!(i0b) }; (t, u, v, w) };
            assert!(t != u && get!(u) == w, "let_memo!: the second binding");
            both((t, v))
        }
        31 => both(match k {
            0 => eager_gen(y.abs(), y.abs()),
            1 => eager_gen(y.abs() as u64, y.abs()),
            _ => eager_gen((y.abs(), y.abs()), y.abs()),
        }),
        32 => both(eager!(other::two, x:x, y:y)),
        33 => {
            let m = n();
            let t = thunk!([Some(n())]? cyclic; k:a.slot as V, n:m);
            both((t.clone(), get!(t, 7)))
        }
        34 => {
            let f = x.rem_euclid(11) as usize;
            art(prim(Some(n()), INNER[f], (f, k, y, ik), |(f, k, y, a)| {
                called("outer");
                let v = get!(a);
                // The name determines what bodies capture.
                let m = || name_pair(nm(100 + f, k), name_of_isize(y as isize));
                match f {
                    0 => memo!([Some(m())]? two; x:v, y:y).1,
                    1 => memo!([None]? two; x:v, y:y).1,
                    2 => memo!(m() =>> two, x:v, y:y),
                    3 => eager!(m() =>> two, x:v, y:y).1,
                    4 => eager!(m() =>> inst::<u16>, x:v, y:y).1,
                    5 => get!(thunk!([Some(m())]? one; x:v)),
                    6 => get!(cell_call!(m() =>> two, x:v, y:y)),
                    7 => eager!(two, x:v, y:y).1,
                    8 => ns(m(), || let_memo! { b = (g) = { let v = get!(a); let_cell! { b = v * v; b } }; c = (h) = { called("inner"); get!(b) + 10 * y }; { let _ = (g, h); c } }),
                    9 => ns(m(), || {
                        let t = let_thunk! { f = { called("inner"); get!(a).min(3) }; f };
                        get!(t)
                    }),
                    _ => {
                        let c: Art<V> = ns(m(), || cell!([inner] v - y));
                        get!(c) * 3
                    }
                }
            }))
        }
        35 => art(thunk!([on()]? one; x:x)),
        36 => art(cell!([Some(n())]? x)),
        _ => both(memo!([None]? one; x:x)),
    }
}
fn eager_gen<T: 'static + Eq + std::hash::Hash + Clone + std::fmt::Debug>(x: T, y: V) -> (Art<V>, V) {
    eager!(gen_arg::<T>, x:x, y:y)
}
const INNER: [&str; 11] = ["i0", "i1", "i2", "i3", "i4", "i5", "i6", "i7", "i8", "i9", "i10"];

/// What it abbreviates.
fn by_hand(form: usize, a: &Args, inputs: &[Art<V>]) -> (Option<Art<V>>, Option<V>) {
    let (x, y, k, z) = (a.x, a.y, a.k, a.z);
    let n = || nm(form, slot_of(form, a));
    let on = || if a.some { Some(n()) } else { None };
    let both = |a: Art<V>| {
        let v = force(&a);
        (Some(a), Some(v))
    };
    let art = |a: Art<V>| (Some(a), None);
    let (i0, i1) = (inputs[0].clone(), inputs[1].clone());
    let ik = inputs[k].clone();
    let body = |n: Option<Name>, s: &'static str, p: Art<V>, q: Art<V>| prim(n, s, (), move |()| { called("body"); force(&p) * 2 + force(&q) });
    let two_ = |n: Option<Name>| prim(n, "two", (x, y), |(x, y)| two(x, y));
    let max_ = |n: Option<Name>| prim(n, "max", (x, y), |(x, y): (V, V)| { called("max"); x.max(y) });
    let apply_ = |n: Option<Name>| prim(n, "apply", (x, y), |(x, y)| apply(x, y, times()));
    let read_ = |n: Option<Name>| prim(n, "read", (ik.clone(), y), |(a, y)| read(a, y));
    fn inst_(t: usize, x: V, y: V) -> V {
        match t {
            0 => inst::<u8>(x, y),
            1 => inst::<u16>(x, y),
            _ => inst::<u64>(x, y),
        }
    }
    match form {
        0 => art(match on() { Some(n) => cell(n, x), None => put(x) }),
        1 => art(cell(name_of_str("cellname"), x)),
        2 => art(cell(fresh(), x)),
        3 => art(two_(on())),
        4 => art(prim(on(), "three", (x, TEXT[k].to_string(), z), |(x, s, z)| three(x, s, z))),
        5 => art(max_(on())),
        6 => art(read_(on())),
        7 => art(apply_(on())),
        8 => art(two_(Some(name_of_str("thunkname")))),
        9 => art(max_(Some(name_of_str("thunkname2")))),
        10 => art(two_(Some(n()))),
        11 => art(prim(Some(n()), "apply2", x, |x| apply2(x, plus3(), minus()))),
        12 => {
            let (p, q) = if a.slot % 2 == 0 { (i0, i1) } else { (i1.clone(), i1) };
            art(body(on(), "body", p, q))
        }
        13 => art(body(Some(name_of_str("bodyname")), "body", i0, i1)),
        14 => art(prim(Some(fresh()), "counted", (), move |()| { called("read"); 3 * force(&ik) - y })),
        15 => both(two_(on())),
        16 => both(apply_(on())),
        17 => both(read_(Some(n()))),
        18 => both(apply_(Some(n()))),
        19 | 20 | 21 => both(prim(Some(n()), "inst", (x, y), move |(x, y)| inst_(form - 19, x, y))),
        22 => both(two_(Some(n()))),
        23 => both(prim_s(["inst8", "inst16", "inst64"][k], (x, y), move |(x, y)| inst_(k, x, y))),
        24 => both(prim_s("two", (x, y), |(x, y)| two(x, y))),
        25 => both(prim(Some(n()), "inst1", x, |x| inst1::<u32, u16>(x, plus3()))),
        26 => art(cell(n(), inst_(a.slot, x, y))),
        27 => art(cell(n(), two(x, y))),
        28 => art({
            let lc = cell(name_of_str("lc"), x);
            let ld = cell(name_of_str("ld"), lc);
            force(&ld)
        }),
        29 => art(body(Some(name_of_str("lt")), "lt", i0, i1)),
        30 => {
            let t = body(Some(name_of_str("t")), "t", i1.clone(), i0.clone());
            let v = force(&t);
            let u = prim(Some(name_of_str("u")), "u", (), move |()| force(&i1) + force(&i0));
            force(&u);
            (Some(t), Some(v))
        }
        31 => both(match k {
            0 => prim_s("gen i", (y.abs(), y.abs()), |(x, y)| gen_arg(x, y)),
            1 => prim_s("gen u", (y.abs() as u64, y.abs()), |(x, y)| gen_arg(x, y)),
            _ => prim_s("gen p", ((y.abs(), y.abs()), y.abs()), |(x, y)| gen_arg(x, y)),
        }),
        32 => both(prim_s("other two", (x, y), |(x, y)| other::two(x, y))),
        33 => {
            let t = cyclic_hand(a.slot as V, n());
            let v = force_cycle(&t, Some(7));
            (Some(t), Some(v))
        }
        34 => {
            let f = x.rem_euclid(11) as usize;
            art(prim(Some(n()), INNER[f], (f, k, y, ik), |(f, k, y, a)| {
                called("outer");
                let v = force(&a);
                let m = name_pair(nm(100 + f, k), name_of_isize(y as isize));
                let two_ = |n| force(&prim(n, "two", (v, y), |(x, y)| two(x, y)));
                match f {
                    0 | 2 | 3 => two_(Some(m)),
                    1 => two_(None),
                    4 => force(&prim(Some(m), "inst", (v, y), |(x, y)| inst_(1, x, y))),
                    5 => force(&prim(Some(m), "one", v, one)),
                    6 => force(&cell(m, two(v, y))),
                    7 => force(&prim_s("two", (v, y), |(x, y)| two(x, y))),
                    8 => ns(m, || {
                        let g: Art<Art<V>> = thunk(NameChoice::Nominal(name_of_str("g")), ProgPt { symbol: "g" }, Rc::new(Box::new(move |(), ()| { let v = force(&a); cell(name_of_str("b"), v * v) })), (), ());
                        let b = force(&g);
                        let h = prim(Some(name_of_str("h")), "h", (), move |()| { called("inner"); force(&b) + 10 * y });
                        force(&h)
                    }),
                    9 => ns(m, || force(&prim(Some(name_of_str("f")), "f", (), move |()| { called("inner"); force(&a).min(3) }))),
                    _ => force(&ns(m, || cell(name_of_str("inner"), v - y))) * 3,
                }
            }))
        }
        35 => art(prim(on(), "one", x, one)),
        36 => art(cell(n(), x)),
        _ => both(prim(None, "one", x, one)),
    }
}

/// The name by which a named form identifies what it makes.
fn name_by(form: usize, a: &Args) -> Name {
    match form {
        1 => name_of_str("cellname"),
        8 => name_of_str("thunkname"),
        9 => name_of_str("thunkname2"),
        13 => name_of_str("bodyname"),
        28 => name_of_str("lc"),
        29 => name_of_str("lt"),
        30 => name_of_str("t"),
        _ => nm(form, slot_of(form, a)),
    }
}

/// Runs the history, one way.  Gives what happened at each step.
fn history(mac: bool, naive: bool, ops: &[[u16; 4]], first: &[V], cx: &mut Cx) -> Result<Vec<String>, String> {
    CALLS.with(|c| c.borrow_mut().clear());
    if naive {
        manage::init_naive();
    } else {
        manage::init_dcg();
    }
    let way = if mac { "by macro" } else { "by hand" };
    let mut w = World { inputs: first.to_vec(), slots: BTreeMap::new(), what: vec![] };
    let inputs: Vec<Art<V>> = if mac {
        vec![cell!([in0] first[0]), cell!([Some(name_of_str("in1"))]? first[1]), let_cell! { in2 = first[2]; in2 }]
    } else {
        (0..3).map(|i| cell(name_of_str(["in0", "in1", "in2"][i]), first[i])).collect()
    };
    let mut arts: Vec<Art<V>> = vec![];
    let mut log = vec![];
    let mut edited = false;
    for (step, op) in ops.iter().enumerate() {
        let d = crate::p_map::more(op);
        let mut t = Tape::new(&d);
        let at = |s: String| format!("step {} ({}): {}", step, way, s);
        let mut said;
        match t.weighted(&[10, 3, 3]) {
            0 => {
                let mut form = t.below(FORMS);
                let a = Args { x: t.small(3), y: t.small(3), slot: t.below(3), k: t.below(3), some: !t.chance(1, 3), z: t.chance(1, 2) };
                if naive && form == 33 {
                    form = 0
                }
                let in_ns = t.chance(1, 3);
                let (named, e) = ex(form, &a);
                said = format!("form {} {}of {:?}{}", form, if named { format!("named {:?} ", name_by(form, &a)) } else { String::new() }, e, if in_ns { ", in a namespace" } else { "" });
                let go = || if mac { by_macro(form, &a, &inputs) } else { by_hand(form, &a, &inputs) };
                let space = || name_of_str("space");
                let (art, val) = if in_ns { ns(space(), go) } else { go() };
                let want = w.ex(&e);
                if let Some(v) = val {
                    ensure!(v == want, "{}", at(format!("{} yields {} instead of {}", said, v, want)));
                }
                let what = if named && !naive {
                    let key = (form, slot_of(form, &a), in_ns);
                    w.slots.insert(key, e);
                    What::Named(key.0, key.1, key.2)
                } else if form == 14 && !naive {
                    What::Own(e)
                } else {
                    What::Own(Ex::Val(want))
                };
                if let Some(art) = art {
                    if named && !naive {
                        // A cell of that name, in an engine of its own.
                        let old = manage::init_dcg();
                        let c: Art<V> = if in_ns { ns(space(), || cell(name_by(form, &a), 0)) } else { cell(name_by(form, &a), 0) };
                        manage::use_engine(old);
                        ensure!(c == art, "{}", at(format!("{} has another identity than its name gives: {:?}", said, art)));
                    }
                    let row: Vec<bool> = arts.iter().map(|b| *b == art).collect();
                    for (i, same) in row.iter().enumerate() {
                        if let (What::Named(..), What::Named(..)) = (&what, &w.what[i]) {
                            ensure!(*same == (what == w.what[i]), "{}", at(format!("{} is equal to that of #{}: {}", said, i, same)));
                        }
                        ensure!(!(*same && (form == 2 || form == 14) && !naive), "{}", at(format!("{}, freshly named, is the same as #{}", said, i)));
                    }
                    said = format!("#{} = {}; equal to {:?}", arts.len(), said, row.iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect::<Vec<_>>());
                    arts.push(art);
                    w.what.push(what);
                }
                if mac {
                    cx.label(LABELS[form]);
                    cx.label_if(!a.some && !named, "without a name");
                }
            }
            1 => {
                if naive {
                    continue;
                }
                let (i, v) = (t.below(3), t.small(3));
                said = format!("input {} becomes {}", i, v);
                edited = edited || w.inputs[i] != v;
                w.inputs[i] = v;
                match (t.below(3), mac) {
                    (0, _) => set(&inputs[i], v),
                    (_, true) => match i {
                        0 => drop(cell!([in0] v)),
                        1 => drop(cell!([Some(name_of_str("in1"))]? v)),
                        _ => drop(let_cell! { in2 = v; in2 }),
                    },
                    _ => drop(cell(name_of_str(["in0", "in1", "in2"][i]), v)),
                }
            }
            _ => {
                if arts.is_empty() {
                    continue;
                }
                let i = t.below(arts.len());
                let want = w.value(&w.what[i]);
                said = format!("demand #{}", i);
                let got = match (t.below(2), mac) {
                    (0, true) => get!(arts[i]),
                    (0, false) => force(&arts[i]),
                    (_, true) => get!(arts[i], 99),
                    (_, false) => force_cycle(&arts[i], Some(99)),
                };
                ensure!(got == want, "{}", at(format!("#{} {:?} yields {} instead of {}", i, w.what[i], got, want)));
                if mac {
                    cx.label_if(edited, "demanded after an edit");
                    cx.nontrivial |= edited || naive;
                }
            }
        }
        let nodes = adapton::engine::reflect_dcg::dcg_reflect_now().map(|d| d.table.len());
        said = format!("{}; calls {:?}; nodes {:?}", said, CALLS.with(|c| c.borrow().clone()), nodes);
        log.push(said);
    }
    for i in 0..arts.len() {
        let (got, want) = (if mac { get!(arts[i]) } else { force(&arts[i]) }, w.value(&w.what[i]));
        ensure!(got == want, "at the end ({}), #{} {:?} yields {} instead of {}", way, i, w.what[i], got, want);
        log.push(format!("calls {:?}", CALLS.with(|c| c.borrow().clone())));
    }
    Ok(log)
}
const LABELS: [&str; FORMS] = [
    "cell! optional", "cell! identifier", "cell! counted", "thunk! optional", "thunk! three arguments", "thunk! closure", "thunk! of an articulation", "thunk! spurious",
    "thunk! identifier", "thunk! identifier closure", "thunk! =>>", "thunk! =>> spurious", "thunk! optional body", "thunk! identifier body", "thunk! counted body",
    "memo! optional", "memo! spurious", "memo! =>>", "memo! =>> spurious", "eager! =>> instance", "eager! =>> instance", "eager! =>> instance", "eager! =>> path",
    "eager! instance", "eager! path", "eager! =>> spurious", "cell_call! instance", "cell_call!", "let_cell!", "let_thunk!", "let_memo!", "eager! generic caller",
    "eager! qualified path", "get! with a cycle value", "form within a computation", "thunk! one argument", "cell! some", "memo! none",
];

/// Every form makes a thunk of the same name and the same arguments, of
/// which the function is told by its number.
fn maker(k: usize, x: V, y: V) -> (usize, V, Art<V>) {
    let n = || name_of_str("t");
    match k {
        0 => (0, 10 * x - y, thunk!([Some(n())]? two; x:x, y:y)),
        1 => (0, 10 * x - y, thunk!([t] two; x:x, y:y)),
        2 => (0, 10 * x - y, thunk!(n() =>> two, x:x, y:y)),
        3 => (0, 10 * x - y, memo!([Some(n())]? two; x:x, y:y).0),
        4 => (0, 10 * x - y, eager!(n() =>> two, x:x, y:y).0),
        5 => (1, x - 10 * y, thunk!([Some(n())]? other::two; x:x, y:y)),
        6 => (1, x - 10 * y, thunk!([t] other::two; x:x, y:y)),
        7 => (1, x - 10 * y, thunk!(n() =>> other::two, x:x, y:y)),
        8 => (1, x - 10 * y, memo!([Some(n())]? other::two; x:x, y:y).0),
        9 => (1, x - 10 * y, eager!(n() =>> other::two, x:x, y:y).0),
        10 => (2, x.max(y), thunk!([Some(n())]? |x: V, y: V| if x > y { x } else { y }; x:x, y:y)),
        11 => (3, x.min(y), thunk!([Some(n())]? |x: V, y: V| if x < y { x } else { y }; x:x, y:y)),
        12 => (4, x + y, thunk!([t] |x: V, y: V| x + y; x:x, y:y)),
        13 => (5, x * y, thunk!([t] |x: V, y: V| x * y; x:x, y:y)),
        14 => (6, 7 * x + y + 100, eager!(n() =>> inst::<u8>, x:x, y:y).0),
        15 => (7, 7 * x + y + 200, eager!(n() =>> inst::<u16>, x:x, y:y).0),
        16 => (8, 7 * x + y + 800, eager!(n() =>> inst::<u64>, x:x, y:y).0),
        17 => (6, 7 * x + y + 100, eager!(inst::<u8>, x:x, y:y).0),
        18 => (7, 7 * x + y + 200, eager!(inst::<u16>, x:x, y:y).0),
        19 => (0, 10 * x - y, eager!(two, x:x, y:y).0),
        20 => (1, x - 10 * y, eager!(other::two, x:x, y:y).0),
        21 => (9, x * 5 + y + 1000, thunk!([Some(n())]? apply; x:x, y:y ;; f:times())),
        22 => (9, x * 5 + y + 1000, memo!([Some(n())]? apply; x:x, y:y ;; f:times()).0),
        23 => (9, x * 5 + y + 1000, thunk!(n() =>> apply, x:x, y:y ;; f:times())),
        // (Bodies have no arguments.)
        24 => (10, 11, thunk![[Some(n())]? 5 + 6]),
        25 => (11, 12, thunk![[Some(n())]? 5 + 7]),
        26 => (12, 13, thunk![[t] 6 + 7]),
        27 => (13, 14, thunk![[t] 7 + 7]),
        28 => (14, 20, let_thunk! { t = 4 * 5; t }),
        29 => (15, 24, let_thunk! { t = 4 * 6; t }),
        30 => (16, 42, { let (a, v) = let_memo! { v = (t) = { 6 * 7 }; (t, v) }; assert!(v == 42); a }),
        31 => (17, 49, { let (a, v) = let_memo! { v = (t) = { 7 * 7 }; (t, v) }; assert!(v == 49); a }),
        32 => (18, 15, thunk![7 + 8]),
        _ => (19, 16, thunk![8 + 8]),
    }
}
/// Distinct functions are kept apart where names do not tell them apart:
/// within structural regions and under the cache-free engine.
fn apart(t: &mut Tape, cx: &mut Cx) -> R {
    let naive = t.chance(1, 3);
    if naive {
        manage::init_naive();
    } else {
        manage::init_dcg();
    }
    cx.label("functions under one name");
    let (x, y) = (t.small(3), t.small(3));
    let mut all: Vec<(usize, usize, V, Art<V>)> = vec![];
    for _ in 0..2 + t.below(6) {
        let k = t.below(34);
        cx.digest(&(naive, k, x, y));
        cx.show(|| format!("cache-free: {}, maker {} of {} and {}", naive, k, x, y));
        let (f, want, art) = if naive { maker(k, x, y) } else { structural(|| maker(k, x, y)) };
        let got = get!(art);
        ensure!(got == want, "maker {} of {} and {} yields {} instead of {}", k, x, y, got, want);
        for (f2, k2, _, art2) in &all {
            ensure!(f == *f2 || art != *art2, "makers {} and {} of different functions give one articulation, {:?}", k, k2, art);
            ensure!(k != *k2 || k >= 32 || art == *art2, "maker {} gives {:?} and then {:?}", k, art2, art);
            cx.nontrivial |= f != *f2;
        }
        all.push((f, k, want, art));
    }
    for (_, k, want, art) in &all {
        let got = get!(art);
        ensure!(got == *want, "at the end, maker {} of {} and {} yields {} instead of {}", k, x, y, got, want);
    }
    Ok(())
}

fn c25(c: &Case, cx: &mut Cx) -> R {
    let mut t = Tape::new(&c.a);
    if t.chance(1, 10) {
        return apart(&mut Tape::new(&c.b.concat()), cx);
    }
    let naive = t.chance(1, 6);
    cx.label_if(naive, "cache-free");
    let first: Vec<V> = (0..3).map(|_| t.small(3)).collect();
    cx.digest(&(naive, &first));
    let hand = history(false, naive, &c.b, &first, cx)?;
    let mac = history(true, naive, &c.b, &first, cx)?;
    cx.digest(&mac);
    cx.show(|| format!("cache-free: {}, inputs {:?}\n{}", naive, first, mac.join("\n")));
    for (m, h) in mac.iter().zip(hand.iter()) {
        ensure!(m == h, "by macro: {}; by hand: {}", m, h)
    }
    // Name forking.
    let n = [nm(t.below(3), t.below(3)), name_unit(), name_of_string(TEXT[t.below(3)].into()), name_of_isize(t.small(5) as isize), name_of_hash64(t.raw() as u64)][t.below(5)].clone();
    ensure!(fork!(n.clone()) == name_fork(n.clone()), "fork!({:?}) gives {:?}", n, fork!(n.clone()));
    let (l, r) = name_fork(n.clone());
    ensure!(forko!(Some(n.clone())) == (Some(l), Some(r)), "forko!(Some({:?})) gives {:?}", n, forko!(Some(n.clone())));
    ensure!(forko!(None::<Name>) == (None, None), "forko!(None)");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        a: (4, 16),
        b: (2, 24),
        quick: 80_000,
        thorough: 3_000_000,
        run: c25,
        rule: "A history of 37 convenience forms over generated names, arguments and namespaces, between edits of inputs and demands, run through the macros and through the primitives; non-trivial: something was demanded after an edit (or under the cache-free engine)",
        assumptions: &["what closures capture is determined by name and arguments"],
    }]
}

// Two functions that are spelled alike where they are used.
mod user1 {
    fn alike(x: i64, y: i64) -> i64 {
        x + y
    }
    pub fn structural(x: i64, y: i64) -> i64 {
        use adapton::{engine::*, macros::*};
        eager!(alike, x:x, y:y).1
    }
    pub fn named(n: adapton::engine::Name, x: i64, y: i64) -> i64 {
        use adapton::{engine::*, macros::*};
        memo!([Some(n)]? alike; x:x, y:y).1
    }
}
mod user2 {
    fn alike(x: i64, y: i64) -> i64 {
        x * y + 100
    }
    pub fn structural(x: i64, y: i64) -> i64 {
        use adapton::{engine::*, macros::*};
        eager!(alike, x:x, y:y).1
    }
    pub fn named(n: adapton::engine::Name, x: i64, y: i64) -> i64 {
        use adapton::{engine::*, macros::*};
        memo!([Some(n)]? alike; x:x, y:y).1
    }
}

pub fn probes() -> Vec<Probe> {
    fn structural() -> R {
        manage::init_dcg();
        let (a, b) = (user1::structural(2, 3), user2::structural(2, 3));
        ensure!((a, b) == (5, 106), "user1::alike(2, 3) = 5 and user2::alike(2, 3) = 106, each used as `alike`, yield {} and {} structurally", a, b);
        Ok(())
    }
    fn named() -> R {
        manage::init_dcg();
        let n = name_of_str("name");
        let a = user1::named(n.clone(), 2, 3);
        match catch(|| user2::named(n, 2, 3)) {
            Err(_) => Ok(()),
            Ok(b) => {
                ensure!((a, b) == (5, 106), "user1::alike(2, 3) = 5 and user2::alike(2, 3) = 106, each used as `alike` at one name, yield {} and {}", a, b);
                Ok(())
            }
        }
    }
    vec![
        Probe { id: "C25", key: "alike-structural", run: structural },
        Probe { id: "C25", key: "alike-named", run: named },
    ]
}
