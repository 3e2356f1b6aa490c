//! C16: lists with interposed names and articulations against vectors.

use crate::fw::*;
use adapton::catalog::collections::*;
use adapton::engine::*;
use adapton::macros::ProgPt;
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::Hash;
use std::rc::Rc;

/// Element types; `of` keeps the order of small numbers.
pub trait El: 'static + Debug + Hash + Eq + Ord + Clone {
    fn of(i: i64) -> Self;
    fn num(&self) -> i64;
    /// An associative operation with identity `id`.
    fn id() -> Self;
    fn join(&self, other: &Self) -> Self;
}
impl El for i64 {
    fn of(i: i64) -> Self {
        i
    }
    fn num(&self) -> i64 {
        *self
    }
    fn id() -> i64 {
        i64::min_value()
    }
    fn join(&self, o: &i64) -> i64 {
        *self.max(o)
    }
}
impl El for () {
    fn of(_: i64) {}
    fn num(&self) -> i64 {
        0
    }
    fn id() {}
    fn join(&self, _: &()) {}
}
impl El for String {
    fn of(i: i64) -> Self {
        format!("{:06}", i + 500_000)
    }
    fn num(&self) -> i64 {
        self.parse::<i64>().unwrap() - 500_000
    }
    fn id() -> String {
        String::new()
    }
    fn join(&self, o: &String) -> String {
        format!("{}{}", self, o)
    }
}
impl El for (bool, Option<Box<i64>>) {
    fn of(i: i64) -> Self {
        let h = i.div_euclid(3);
        (h >= 1, if i.rem_euclid(3) == 0 && h == 1 { None } else { Some(Box::new(i)) })
    }
    fn num(&self) -> i64 {
        match &self.1 {
            None => 3,
            Some(i) => **i,
        }
    }
    fn id() -> Self {
        Self::of(-99)
    }
    fn join(&self, o: &Self) -> Self {
        // The first that is not the identity.
        if *self == Self::id() { o.clone() } else { self.clone() }
    }
}

pub fn nm(i: usize) -> Name {
    match i % 4 {
        0 => name_of_usize(i),
        1 => name_of_string(format!("k{}", i)),
        2 => name_pair(name_of_usize(i), name_of_str("p")),
        _ => name_fork(name_of_usize(i)).0,
    }
}

/// A whole list (if it ends).
pub fn whole<X: Clone, L: ListElim<X> + 'static>(l: L) -> Seq<X> {
    let v = list_demand(l, 10_000);
    if v.len() == 10_000 {
        panic!("a list without end")
    }
    v
}
/// What a list holds, in order.
pub type Seq<X> = Vec<NameElse<X>>;
pub fn elems<X: Clone>(s: &Seq<X>) -> Vec<X> {
    s.iter().filter_map(|x| if let NameElse::Else(x) = x { Some(x.clone()) } else { None }).collect()
}
pub fn names<X>(s: &Seq<X>) -> Vec<Name> {
    s.iter().filter_map(|x| if let NameElse::Name(n) = x { Some(n.clone()) } else { None }).collect()
}
pub fn distinct(ns: &[Name]) -> bool {
    let mut seen = HashSet::new();
    ns.iter().all(|n| seen.insert(n))
}

/// An articulation of some kind that holds `l`.
pub fn art_of<T: 'static + Debug + Hash + Eq + Clone>(t: &mut Tape, id: Name, l: T) -> (Art<T>, &'static str) {
    let th = |nc: NameChoice, l: T| thunk(nc, ProgPt { symbol: "tail" }, Rc::new(Box::new(|l: T, _: ()| l)), l, ());
    match t.weighted(&[4, 2, 2, 1, 1, 1, 1]) {
        0 => (cell(id, l), "cell"),
        1 => (put(l), "put"),
        2 => (th(NameChoice::Nominal(id), l), "thunk"),
        3 => (th(NameChoice::Structural, l), "structural"),
        4 => (th(NameChoice::Naive, l), "naive"),
        5 => (th(NameChoice::Eager, l), "eager"),
        _ => (thunk_map(cell(id, (l, true)), Rc::new(|p: (T, bool)| p.0)), "mapped"),
    }
}

/// A list of random elements with names and articulations between.
/// Names start at number `n0` and are distinct.
pub fn gen_list<X: El>(t: &mut Tape, max: usize, n0: usize, spread: usize) -> (List<X>, Seq<X>, String) {
    let n = t.below(max + 1);
    let mut l = List::nil();
    let mut s: Seq<X> = vec![];
    let mut said = vec!["nil".to_string()];
    let mut names = n0;
    if t.chance(1, 2) {
        // The shape that conversion from vectors gives.
        for _ in 0..n {
            if t.chance(1, 3) {
                s.push(NameElse::Name(nm(names)));
                names += 1
            } else {
                s.push(NameElse::Else(X::of(t.small(spread))))
            }
        }
        let l = list_of_vec(&s);
        let said = format!("list_of_vec {:?}", s);
        return (l, s, said);
    }
    for _ in 0..n {
        match t.weighted(&[4, 2, 2]) {
            0 => {
                let x = X::of(t.small(spread));
                said.push(format!("{:?}", x));
                s.push(NameElse::Else(x.clone()));
                l = List::cons(x, l);
            }
            1 => {
                said.push(format!("name {:?}", nm(names)));
                s.push(NameElse::Name(nm(names)));
                l = List::name(nm(names), l);
                names += 1;
            }
            _ => {
                let (a, k) = art_of(t, nm(names), l);
                said.push(format!("{} {:?}", k, nm(names)));
                names += 1;
                l = List::art(a);
            }
        }
    }
    s.reverse();
    said.reverse();
    (l, s, said.join(", "))
}

pub fn map_f<X: El>(k: usize) -> Rc<dyn Fn(&X) -> X> {
    match k {
        0 => Rc::new(|x: &X| X::of(x.num() + 1)),
        1 => Rc::new(|x: &X| X::of(-x.num())),
        2 => Rc::new(|x: &X| X::of(x.num() % 2)),
        _ => Rc::new(|x: &X| x.clone()),
    }
}
pub fn pred_f<X: El>(k: usize) -> Rc<dyn Fn(&X) -> bool> {
    match k {
        0 => Rc::new(|x: &X| x.num() > 0),
        1 => Rc::new(|x: &X| x.num() % 2 == 0),
        2 => Rc::new(|_: &X| false),
        _ => Rc::new(|_: &X| true),
    }
}

struct Entry<X> {
    l: List<X>,
    /// Elements and names, in order.
    s: Seq<X>,
}

fn check_list<X: El>(what: &str, l: &List<X>, s: &Seq<X>) -> R {
    let got = whole(l.clone());
    ensure!(got == *s, "{}: {:?} instead of {:?}", what, got, s);
    Ok(())
}

fn c16_for<X: El>(c: &Case, t: &mut Tape, cx: &mut Cx) -> R {
    if t.chance(1, 3) {
        manage::init_naive();
        cx.label("cache-free");
    } else {
        manage::init_dcg();
    }
    let mut pool: Vec<Entry<X>> = vec![];
    let big = t.big(60);
    cx.label_if(big, "long lists");
    for i in 0..2 {
        let (max, spread) = if big { (200, 200) } else { (12, 4) };
        let (l, s, said) = ns(name_of_string(format!("in{}", i)), || gen_list::<X>(t, max, 1000 * i, spread));
        cx.show(|| format!("#{}: {}", i, said));
        cx.digest(&said);
        pool.push(Entry { l, s });
    }
    let mut interesting = false;
    // (Lists may double at every step.)
    for (step, op) in c.b.iter().take(if big { 5 } else { 99 }).enumerate() {
        let mut t = Tape::new(op);
        let k = t.below(18);
        let i = t.below(pool.len());
        let raw = t.raw();
        let s = pool[i].s.clone();
        let l = pool[i].l.clone();
        let xs = elems(&s);
        let ok = distinct(&names(&s));
        let region = name_of_string(format!("step{}", step));
        let what = format!("step {}: operation {} on #{} {:?} with {}", step, k, i, s, raw);
        cx.show(|| what.clone());
        cx.digest(&(k, i, raw));
        interesting |= !xs.is_empty() && s.len() > xs.len();
        let kf = scale(raw, 4);
        let mf = map_f::<X>(kf);
        let pf = pred_f::<X>(kf);
        let mfo = { let m = mf.clone(); Rc::new(move |x: X| m(&x)) };
        let pfo = { let p = pf.clone(); Rc::new(move |x: &X| p(x)) };
        let mapped = || -> Vec<X> { xs.iter().map(|x| mf(x)).collect() };
        let kept = || -> Vec<X> { xs.iter().filter(|x| pf(x)).cloned().collect() };
        // An operation that gives a list gives it here, with the
        // elements expected.
        let new: Option<(List<X>, Vec<X>)> = match k {
            0 if ok => Some((ns(region, || list_map_eager(l, mfo)), mapped())),
            1 if ok => Some((ns(region, || list_map_eager2(l, mfo)), mapped())),
            2 if ok => Some((ns(region, || list_map_lazy(l, mfo)), mapped())),
            3 if ok => Some((ns(region, || list_filter_eager(l, pfo)), kept())),
            4 if ok => Some((ns(region, || list_filter_lazy(l, pfo)), kept())),
            5 | 6 if ok => {
                let j = scale(raw, pool.len());
                let (r, rs) = if k == 5 { (List::nil(), vec![]) } else { (pool[j].l.clone(), elems(&pool[j].s)) };
                Some((ns(region, || list_reverse(l, r)), xs.iter().rev().cloned().chain(rs).collect()))
            }
            7 => {
                let j = scale(raw, pool.len());
                let new = ns(region, || list_append(l, pool[j].l.clone()));
                Some((new, xs.iter().cloned().chain(elems(&pool[j].s)).collect()))
            }
            8 => {
                // Right fold, in an order-sensitive way.
                let got = list_fold(l.clone(), vec![X::of(77)], Rc::new(|x: X, mut r: Vec<X>| { r.push(x); r }));
                let want: Vec<X> = vec![X::of(77)].into_iter().chain(xs.iter().rev().cloned()).collect();
                ensure!(got == want, "{}: fold gives {:?}", what, got);
                let got = list_fold(l, 7u64, Rc::new(|x: X, r: u64| r.wrapping_mul(31).wrapping_add(x.num() as u64)));
                let want = xs.iter().rev().fold(7u64, |r, x| r.wrapping_mul(31).wrapping_add(x.num() as u64));
                ensure!(got == want, "{}: fold gives {:?}", what, got);
                None
            }
            9 => {
                ensure!(list_is_empty(&l) == xs.is_empty(), "{}: is_empty", what);
                ensure!(<List<X> as ListElim<X>>::is_name(&l) == matches!(s.first(), Some(NameElse::Name(_))), "{}: is_name", what);
                if xs.is_empty() {
                    ensure!(catch(|| list_pop(l)).is_err(), "{}: popped from an empty list", what);
                    None
                } else {
                    let (x, rest) = list_pop(l);
                    ensure!(x == xs[0], "{}: popped {:?}", what, x);
                    Some((rest, xs[1..].to_vec()))
                }
            }
            10 => {
                let x = X::of(zigzag(scale(raw, 9)));
                let mut want = vec![x.clone()];
                want.extend(xs);
                Some((if raw % 2 == 0 { list_push(l, x) } else { list_cons(x, l) }, want))
            }
            11 => {
                let n = scale(raw, s.len() + 3);
                let got = if raw % 2 == 0 { vec_of_list(l, Some(n)) } else { list_demand(l, n) };
                ensure!(got == s[..n.min(s.len())], "{}: limited to {}: {:?}", what, n, got);
                None
            }
            12 => {
                // Elimination by reference, and with an argument.
                let (mut l, mut i) = (l, 0);
                loop {
                    let (hd, rest) = List::elim(&l, |_| (None, None), |x, tl| (Some(NameElse::Else(x.clone())), Some(tl.clone())), |n, tl| (Some(NameElse::Name(n.clone())), Some(tl.clone())));
                    let hd2 = List::elim_arg(l.clone(), 5u8, |_, a| (None, a), |x, _, a| (Some(NameElse::Else(x)), a), |n, _, a| (Some(NameElse::Name(n)), a));
                    ensure!(hd == s.get(i).cloned() && hd2 == (hd.clone(), 5), "{}: at {}: {:?} and {:?}", what, i, hd, hd2);
                    i += 1;
                    match rest {
                        Some(r) => l = r,
                        None => break,
                    }
                }
                None
            }
            13 => {
                let n = scale(raw, 12);
                let c = (raw % 7) as i64;
                let l: List<X> = ns(region, || list_gen(n, |i| X::of(i as i64 * 3 % 7 - c)));
                Some((l, (0..n as i64).map(|i| X::of(i * 3 % 7 - c)).collect()))
            }
            14 if ok => Some((ns(region, || list_of_vec(&s)), xs)),
            15 => {
                let n = if raw % 2 == 0 { Some(nm(1000 + step)) } else { None };
                let got: List<X> = ns(region, || match raw % 3 {
                    0 => list_name_art_op(n.clone(), l),
                    1 => list_name_op(n.clone(), l),
                    _ => List::name_art(n.clone(), l),
                });
                let got_names = names(&whole(got.clone()));
                ensure!(got_names == n.into_iter().chain(names(&s)).collect::<Vec<_>>(), "{}: names {:?}", what, got_names);
                Some((got, xs))
            }
            16 | 17 => {
                // Merging two sorted lists.
                let j = scale(raw, pool.len());
                let (mut a, mut b) = (xs.clone(), elems(&pool[j].s));
                a.sort();
                b.sort();
                let mk = |v: &[X], every: usize, side: usize| -> List<X> {
                    let mut l = List::nil();
                    for (p, x) in v.iter().enumerate().rev() {
                        if (p + side) % every == 0 {
                            l = List::name_art(Some(nm(2000 + 500 * side + p)), l)
                        }
                        l = List::cons(x.clone(), l)
                    }
                    l
                };
                let n1 = if raw & 8 == 0 { None } else { Some(nm(4000)) };
                let n2 = if raw & 16 == 0 { None } else { Some(nm(4001)) };
                let every = 1 + (raw as usize & 3);
                let (la, lb) = (ns(name_of_string(format!("a{}", step)), || mk(&a, every, 0)), ns(name_of_string(format!("b{}", step)), || mk(&b, every, 1)));
                let got = ns(region, || if k == 16 { list_merge(n1, la, n2, lb) } else { list_merge_wrapper(n1, la, n2, lb) });
                let mut want: Vec<X> = a.into_iter().chain(b).collect();
                want.sort();
                Some((got, want))
            }
            _ => None,
        };
        if let Some((l, want)) = new {
            let n = scale(raw.wrapping_mul(7919), want.len() + 1);
            // Perhaps first demand only a part.
            if raw % 3 == 0 {
                let got = list_demand(l.clone(), n);
                let g = elems(&got);
                ensure!(got.len() <= n && g[..] == want[..g.len()], "{}: its beginning is {:?} instead of {:?}", what, got, want);
            }
            let got = whole(l.clone());
            ensure!(elems(&got) == want, "{}: gives {:?} instead of {:?}", what, got, want);
            // Names of the input that are kept stay in their places.
            if k == 0 || k == 3 {
                let w: Vec<Name> = names(&s);
                ensure!(names(&got) == w, "{}: names {:?}", what, names(&got));
            }
            if got.len() < 60 {
                pool.push(Entry { l, s: got });
            }
            cx.label(["eager map", "eager map 2", "lazy map", "eager filter", "lazy filter", "reverse", "reverse onto", "append", "", "pop", "push", "", "", "gen", "of vec", "name", "merge", "merge in a namespace"][k]);
        }
    }
    for (i, e) in pool.iter().enumerate() {
        check_list(&format!("at the end, #{}", i), &e.l, &e.s)?
    }
    cx.nontrivial = interesting;
    Ok(())
}

fn c16(c: &Case, cx: &mut Cx) -> R {
    let mut t = Tape::new(&c.a);
    match t.below(3) {
        0 => c16_for::<i64>(c, &mut t, cx),
        1 => c16_for::<String>(c, &mut t, cx),
        _ => c16_for::<(bool, Option<Box<i64>>)>(c, &mut t, cx),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C16",
        a: (10, 90),
        b: (1, 14),
        quick: 200_000,
        thorough: 5_000_000,
        run: c16,
        rule: "Two random lists (three element types, distinct names, seven kinds of articulations in between) and a growing pool of results of every list operation, each in its own namespace, under either engine, partly demanded first; non-trivial: an operation on a list with both elements and names",
        assumptions: &["each pass runs in a namespace of its own and is given lists of distinct names, as its naming demands"],
    }]
}
