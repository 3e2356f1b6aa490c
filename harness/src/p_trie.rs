//! C24: tries assembled from their constructors, against sets.

use crate::fw::*;
use crate::p_list::*;
use crate::p_names::h;
use adapton::catalog::bitstring::*;
use adapton::catalog::collections::trie::*;
use adapton::engine::*;
use adapton::macros::ProgPt;
use std::collections::BTreeSet;
use std::rc::Rc;

type Path = (i64, i64);
fn bs(p: Path) -> BS {
    BS { length: p.0, value: p.1 }
}
fn down(p: Path, b: i64) -> Path {
    (p.0 + 1, p.1 | b << p.0)
}
fn bit<X: El>(x: &X, d: i64) -> i64 {
    (h(x) >> d & 1) as i64
}

struct Gen<X: El> {
    names: usize,
    /// No leaf is nearer to the root (compare `Meta::min_depth`).
    deep: i64,
    /// Cells that can be set again, with where they are.
    cells: Vec<(Art<Trie<X>>, Path)>,
    order: Vec<X>,
    said: Vec<String>,
}

/// A trie of the given elements, all of which belong at the path.
fn build<X: El>(t: &mut Tape, g: &mut Gen<X>, xs: &[X], p: Path, depth: usize) -> Trie<X> {
    let wrap = if depth < 40 { t.weighted(&[5, 1, 1, 1]) } else { 0 };
    g.names += 1;
    let id = name_pair(nm(g.names), name_of_usize(g.names));
    match wrap {
        1 => {
            g.said.push(format!("name {:?}", id));
            let t1 = build(t, g, xs, p, depth + 1);
            return Trie::name(id, t1);
        }
        2 => {
            let t1 = build(t, g, xs, p, depth + 1);
            let (a, k) = art_of(t, id, t1);
            g.said.push(k.into());
            return Trie::art(a);
        }
        3 => {
            let t1 = build(t, g, xs, p, depth + 1);
            let a = cell(id, t1);
            g.said.push("cell".into());
            g.cells.push((a.clone(), p));
            return Trie::art(a);
        }
        _ => (),
    }
    match xs.len() {
        0 => {
            g.said.push(format!("nil {:?}", p));
            TrieIntro::nil(bs(p))
        }
        // A leaf, here or further down.
        1 if p.0 >= BS::MAX_LEN || (p.0 >= g.deep && !t.chance(1, 3)) => {
            g.said.push(format!("leaf {:?} {:?}", p, xs[0]));
            g.order.push(xs[0].clone());
            TrieIntro::leaf(bs(p), xs[0].clone())
        }
        _ => {
            let (l, r): (Vec<X>, Vec<X>) = xs.iter().cloned().partition(|x| bit(x, p.0) == 0);
            g.said.push(format!("bin {:?}", p));
            let l = build(t, g, &l, down(p, 0), depth + 1);
            let r = build(t, g, &r, down(p, 1), depth + 1);
            TrieIntro::bin(bs(p), l, r)
        }
    }
}

fn universe<X: El>() -> Vec<X> {
    (-12..13).map(X::of).collect()
}

/// In traversal order, by one of the eliminators.
fn walk<X: El>(k: usize, t: &Trie<X>, p: Option<Path>, out: &mut Vec<X>) -> R {
    let at = |b: &BS, p: Option<Path>| -> R {
        if let Some(p) = p {
            ensure!(*b == bs(p), "{:?} at {:?}", b, p)
        }
        Ok(())
    };
    let both = |b: &BS, l: &Trie<X>, r: &Trie<X>, out: &mut Vec<X>| -> R {
        at(b, p)?;
        walk(k, l, p.map(|p| down(p, 0)), out)?;
        walk(k, r, p.map(|p| down(p, 1)), out)
    };
    match k {
        0 => Trie::elim_arg(t.clone(), out, |b, _| at(&b, p), |b, x, out| { out.push(x); at(&b, p) }, |b, l, r, out| both(&b, &l, &r, out), |_, t, out| walk(k, &t, p, out), |_, t, out| walk(k, &t, p, out)),
        1 => {
            let o = std::cell::RefCell::new(out);
            Trie::elim_ref(t, |b| at(b, p), |b, x| { o.borrow_mut().push(x.clone()); at(b, p) }, |b, l, r| both(b, l, r, &mut o.borrow_mut()), |_, t| walk(k, t, p, &mut o.borrow_mut()), |_, t| walk(k, t, p, &mut o.borrow_mut()))
        }
        _ => {
            let o = std::cell::RefCell::new(out);
            Trie::elim(t.clone(), |b| at(&b, p), |b, x| { o.borrow_mut().push(x); at(&b, p) }, |b, l, r| both(&b, &l, &r, &mut o.borrow_mut()), |_, t| walk(k, &t, p, &mut o.borrow_mut()), |_, t| walk(k, &t, p, &mut o.borrow_mut()))
        }
    }
}

fn check_trie<X: El>(what: &str, region: usize, t: &Trie<X>, order: &[X]) -> R {
    let set: BTreeSet<&X> = order.iter().collect();
    for x in universe::<X>() {
        let want = set.contains(&x);
        ensure!(<Trie<X> as SetElim<X>>::mem(t, &x) == want, "{}: {:?} is a member: {}", what, x, !want);
        let found = Trie::find(t, &x, h(&x) as i64);
        ensure!(found == if want { Some(x.clone()) } else { None }, "{}: looking for {:?} finds {:?}", what, x, found);
    }
    ensure!(Trie::is_empty(t) == order.is_empty(), "{}: is_empty", what);
    let push = Rc::new(|x: X, mut v: Vec<X>| { v.push(x); v });
    let got = <Trie<X> as SetElim<X>>::fold(t.clone(), vec![], push.clone());
    ensure!(got == order, "{}: fold visits {:?} instead of {:?}", what, got, order);
    for _ in 0..2 {
        let got = ns(name_pair(name_of_str("fold"), name_of_usize(region)), || trie_fold(t.clone(), vec![], push.clone()));
        ensure!(got == order, "{}: trie_fold visits {:?} instead of {:?}", what, got, order);
    }
    for k in 0..3 {
        let mut out = vec![];
        walk(k, t, Some((0, 0)), &mut out).map_err(|e| format!("{}: {}", what, e))?;
        ensure!(out == order, "{}: elimination {} meets {:?} instead of {:?}", what, k, out, order);
    }
    Ok(())
}

fn subset<X: El>(t: &mut Tape, max: usize, p: Path) -> Vec<X> {
    let fits: Vec<X> = universe::<X>().into_iter().filter(|x| h(x) as i64 & ((1 << p.0) - 1) == p.1).collect();
    if fits.is_empty() {
        return vec![];
    }
    let n = t.below(max + 1);
    let set: BTreeSet<X> = (0..n).map(|_| fits[t.below(fits.len())].clone()).collect();
    set.into_iter().collect()
}

fn c24_for<X: El>(c: &Case, t: &mut Tape, cx: &mut Cx) -> R {
    let naive = t.chance(1, 3);
    if naive {
        manage::init_naive();
        cx.label("cache-free");
    } else {
        manage::init_dcg();
    }
    // The library's own empty trie.
    let depth = t.below(35) as i64;
    let e: Trie<X> = ns(name_of_str("e"), || TrieIntro::empty(Meta { min_depth: depth }));
    check_trie("the empty trie", 999, &e, &[])?;
    let cap = Trie::elim_ref(&e, |_| -1, |_, _| -1, |_, _, _| -1, |m, _| m.min_depth, |_, t| Trie::elim_ref(t, |_| -1, |_, _| -1, |_, _, _| -1, |m, _| m.min_depth, |_, _| -1));
    ensure!(cap == depth.min(BS::MAX_LEN), "the empty trie of depth {} has {}", depth, cap);

    let deep = if t.chance(1, 4) { 15 + t.below(16) as i64 } else { 0 };
    if deep > 0 {
        cx.label("deep");
    }
    let mut g = Gen { names: 0, deep, cells: vec![], order: vec![], said: vec![] };
    let max = if t.big(60) { 80 } else { 10 };
    let xs = subset::<X>(t, max, (0, 0));
    let inner = build(t, &mut g, &xs, (0, 0), 0);
    let mut root = TrieIntro::root(Meta { min_depth: 1 }, inner.clone());
    if t.chance(1, 2) {
        root = Trie::name(name_of_str("top"), Trie::art(cell(name_of_str("top"), root)))
    }
    cx.show(|| g.said.join("; "));
    cx.digest(&g.said);
    let mut order = g.order.clone();
    check_trie("at first", 0, &root, &order)?;
    ensure!(root == root.clone() && h(&root) == h(&root.clone()), "a trie differs from its clone");

    // Splitting a leaf once, or as often as possible.
    for (i, x) in xs.iter().enumerate() {
        let d = t.below(30) as i64;
        let mut p = (0, 0);
        for j in 0..d {
            p = down(p, bit(x, j))
        }
        let leaf: Trie<X> = TrieIntro::leaf(bs(p), x.clone());
        let mut s = Trie::split_atomic(leaf);
        let mut at = p;
        loop {
            let (got, hi) = match &s {
                Trie::Bin(b, l, r) if *b == bs(at) => match (&**l, &**r) {
                    (Trie::Nil(n), r @ Trie::Leaf(..)) if *n == bs(down(at, 0)) => (r.clone(), 1),
                    (l @ Trie::Leaf(..), Trie::Nil(n)) if *n == bs(down(at, 1)) => (l.clone(), 0),
                    _ => return Err(format!("splitting {:?} at {:?} gives {:?}", x, at, s)),
                },
                _ => return Err(format!("splitting {:?} at {:?} gives {:?}", x, at, s)),
            };
            ensure!(hi == bit(x, at.0), "splitting {:?} at {:?} goes the wrong way: {:?}", x, at, s);
            at = down(at, hi);
            ensure!(got == Trie::Leaf(bs(at), x.clone()), "splitting {:?} leaves {:?} at {:?}", x, got, at);
            if at.0 >= BS::MAX_LEN || i % 2 == 0 {
                break;
            }
            s = Trie::split_atomic(got);
        }
        let keep = Trie::split_atomic(s.clone());
        ensure!(keep == s, "splitting {:?} again gives {:?}", s, keep);
        cx.label("split");
    }
    ensure!(Trie::split_atomic(Trie::<X>::Nil(bs((0, 0)))) == Trie::Nil(bs((0, 0))), "splitting nil");

    // Questions asked by computations.
    let asks: Vec<(X, Art<(bool, Option<X>)>)> = universe::<X>()
        .into_iter()
        .step_by(3)
        .enumerate()
        .map(|(i, x)| {
            let a = thunk(
                NameChoice::Nominal(name_pair(name_of_str("ask"), name_of_usize(i))),
                ProgPt { symbol: "ask" },
                Rc::new(Box::new(|(x, t): (X, Trie<X>), ()| (<Trie<X> as SetElim<X>>::mem(&t, &x), Trie::find(&t, &x, h(&x) as i64)))),
                (x.clone(), root.clone()),
                (),
            );
            (x, a)
        })
        .collect();
    let folded: Art<Vec<X>> = thunk(
        NameChoice::Nominal(name_of_str("all")),
        ProgPt { symbol: "all" },
        Rc::new(Box::new(|t: Trie<X>, ()| ns(name_of_str("folds"), || trie_fold(t, vec![], Rc::new(|x: X, mut v: Vec<X>| { v.push(x); v }))))),
        root.clone(),
        (),
    );
    let mut edits = 0;
    for (step, op) in c.b.iter().enumerate() {
        let what = format!("step {}", step);
        if !naive && !g.cells.is_empty() {
            let more = crate::p_map::more(op);
            let mut t = Tape::new(&more);
            let (a, p) = g.cells[t.below(g.cells.len())].clone();
            let mut new = subset::<X>(&mut t, 4, p);
            if new.is_empty() && p.0 > 0 {
                // Nodes above promise an element.
                new = order.iter().find(|x| h(*x) as i64 & ((1 << p.0) - 1) == p.1).cloned().into_iter().collect();
            }
            // The new part has no cells of its own that could be set.
            let mut g2 = Gen { names: 1_000_000 * (step + 1), deep, cells: vec![], order: vec![], said: vec![] };
            let part = build(&mut t, &mut g2, &new, p, 30);
            cx.show(|| format!("the part at {:?} becomes {}", p, g2.said.join("; ")));
            cx.digest(&g2.said);
            set(&a, part);
            let mut now = vec![];
            walk(1, &root, Some((0, 0)), &mut now).map_err(|e| format!("{}: {}", what, e))?;
            // That part, and nothing else, has changed.
            let there = |x: &&X| h(*x) as i64 & ((1 << p.0) - 1) == p.1;
            let live = now.iter().filter(there).cloned().collect::<Vec<_>>() == g2.order;
            let others: Vec<&X> = now.iter().filter(|x| !there(x)).collect();
            ensure!(others == order.iter().filter(|x| !there(x)).collect::<Vec<_>>(), "{}: changing {:?} from {:?} gives {:?}", what, p, order, now);
            ensure!(live || now == order, "{}: changing {:?} to {:?} gives {:?} after {:?}", what, p, g2.order, now, order);
            edits += (now != order) as u32;
            order = now;
        }
        check_trie(&what, step + 1, &root, &order)?;
        let set: BTreeSet<&X> = order.iter().collect();
        for (i, (x, a)) in asks.iter().enumerate() {
            if op[3] as usize >> (i % 16) & 1 == 1 {
                let want = (set.contains(x), if set.contains(x) { Some(x.clone()) } else { None });
                let got = force(a);
                ensure!(got == want, "{}: the computation finds {:?} for {:?} in {:?}", what, got, x, order);
            }
        }
        let got = force(&folded);
        ensure!(got == order, "{}: the computation folds {:?} instead of {:?}", what, got, order);
    }
    cx.label_if(edits > 0, "parts replaced");
    cx.label_if(order.len() > 3, "more than three elements");
    cx.nontrivial = xs.len() > 1;
    Ok(())
}

fn c24(c: &Case, cx: &mut Cx) -> R {
    let mut t = Tape::new(&c.a);
    match t.below(3) {
        0 => c24_for::<i64>(c, &mut t, cx),
        1 => c24_for::<String>(c, &mut t, cx),
        _ => c24_for::<(bool, Option<Box<i64>>)>(c, &mut t, cx),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        a: (10, 120),
        b: (1, 10),
        quick: 60_000,
        thorough: 3_000_000,
        run: c24,
        rule: "Tries of up to ten elements placed by their hashes, leaves at any depth (in a quarter of the cases 15 to 30), names and seven kinds of articulations in between, three element types, either engine; membership, look-up, emptiness, folds, the eliminators, splitting, and computations asking while cells inside are set to other parts; non-trivial: at least two elements",
        assumptions: &["branches have elements below them, and leaves are placed by the low bits of their hashes, as extension would do (which the library leaves unimplemented)"],
    }]
}
