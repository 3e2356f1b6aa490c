//! C17: trees against their sequences.

use crate::fw::*;
use crate::p_list::*;
use adapton::catalog::collections::*;
use adapton::engine::*;
use std::rc::Rc;

/// A tree without articulations.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum MT<X> {
    Nil,
    Leaf(X),
    Bin(usize, Box<MT<X>>, Box<MT<X>>),
    Name(Name, usize, Box<MT<X>>, Box<MT<X>>),
}
/// What a traversal meets.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Tok<X> {
    El(X),
    Bin(usize),
    Name(Name, usize),
}
impl<X: El> MT<X> {
    pub fn toks(&self, out: &mut Vec<Tok<X>>) {
        match self {
            MT::Nil => (),
            MT::Leaf(x) => out.push(Tok::El(x.clone())),
            MT::Bin(v, l, r) => {
                l.toks(out);
                out.push(Tok::Bin(*v));
                r.toks(out)
            }
            MT::Name(n, v, l, r) => {
                l.toks(out);
                out.push(Tok::Name(n.clone(), *v));
                r.toks(out)
            }
        }
    }
    pub fn seq(&self) -> Seq<X> {
        let mut ts = vec![];
        self.toks(&mut ts);
        ts.into_iter()
            .filter_map(|t| match t {
                Tok::El(x) => Some(NameElse::Else(x)),
                Tok::Name(n, _) => Some(NameElse::Name(n)),
                Tok::Bin(_) => None,
            })
            .collect()
    }
    fn prune(&self) -> MT<X> {
        let two = |l: &MT<X>, r: &MT<X>, f: &dyn Fn(Box<MT<X>>, Box<MT<X>>) -> MT<X>| {
            let (l, r) = (l.prune(), r.prune());
            if l == MT::Nil {
                r
            } else if r == MT::Nil {
                l
            } else {
                f(Box::new(l), Box::new(r))
            }
        };
        match self {
            MT::Nil | MT::Leaf(_) => self.clone(),
            MT::Bin(v, l, r) => two(l, r, &|l, r| MT::Bin(*v, l, r)),
            MT::Name(n, v, l, r) => two(l, r, &|l, r| MT::Name(n.clone(), *v, l, r)),
        }
    }
    fn keep(&self, p: &dyn Fn(&X) -> bool) -> MT<X> {
        match self {
            MT::Leaf(x) if !p(x) => MT::Nil,
            MT::Nil | MT::Leaf(_) => self.clone(),
            MT::Bin(v, l, r) => MT::Bin(*v, Box::new(l.keep(p)), Box::new(r.keep(p))),
            MT::Name(n, v, l, r) => MT::Name(n.clone(), *v, Box::new(l.keep(p)), Box::new(r.keep(p))),
        }
    }
    fn up(&self) -> String {
        match self {
            MT::Nil => "-".into(),
            MT::Leaf(x) => format!("{:?}", x),
            MT::Bin(v, l, r) => format!("({} {} {})", l.up(), v, r.up()),
            MT::Name(n, v, l, r) => format!("({} {:?}.{} {})", l.up(), n, v, r.up()),
        }
    }
    fn up_down(&self, m: Option<Name>) -> String {
        match self {
            MT::Nil => format!("-{:?}", m),
            MT::Leaf(x) => format!("{:?}{:?}", x, m),
            MT::Bin(v, l, r) => format!("({} {}{:?} {})", l.up_down(m.clone()), v, m, r.up_down(None)),
            MT::Name(n, v, l, r) => format!("({} {:?}.{}{:?} {})", l.up_down(m.clone()), n, v, m, r.up_down(Some(n.clone()))),
        }
    }
    fn monoid(&self) -> X {
        match self {
            MT::Nil => X::id(),
            MT::Leaf(x) => x.clone(),
            MT::Bin(_, l, r) | MT::Name(_, _, l, r) => l.monoid().join(&r.monoid()),
        }
    }
    fn lev(&self) -> usize {
        match self {
            MT::Nil => 0,
            MT::Leaf(x) => Level::new(x),
            MT::Bin(v, ..) | MT::Name(_, v, ..) => *v,
        }
    }
    /// Is every node's level at most that of the enclosing node?
    /// (Leaves bear no level of their own in the tree.)
    fn levels(&self, above: usize) -> bool {
        match self {
            MT::Nil | MT::Leaf(_) => true,
            MT::Bin(v, l, r) | MT::Name(_, v, l, r) => *v <= above && l.levels(*v) && r.levels(*v),
        }
    }
}

/// A tree without its articulations, by one of the eliminators.
pub fn walk<X: El>(k: usize, t: &Tree<X>) -> MT<X> {
    let b = |t: &Tree<X>| Box::new(walk(k, t));
    match k {
        0 => Tree::elim(t.clone(), || MT::Nil, |x| MT::Leaf(x), |v, l, r| MT::Bin(v, b(&l), b(&r)), |n, v, l, r| MT::Name(n, v, b(&l), b(&r))),
        1 => Tree::elim_ref(t, || MT::Nil, |x| MT::Leaf(x.clone()), |v, l, r| MT::Bin(*v, b(l), b(r)), |n, v, l, r| MT::Name(n.clone(), *v, b(l), b(r))),
        2 => Tree::elim_arg(
            t.clone(),
            b,
            |_| MT::Nil,
            |x, _| MT::Leaf(x),
            |v, l, r, b| MT::Bin(v, b(&l), b(&r)),
            |n, v, l, r, b| MT::Name(n, v, b(&l), b(&r)),
        ),
        _ => Tree::full_move(
            t.clone(),
            b,
            |_| MT::Nil,
            |x, _| MT::Leaf(x),
            |v, l, r, b| MT::Bin(v, b(&l), b(&r)),
            |n, v, l, r, b| MT::Name(n, v, b(&l), b(&r)),
            |a, b| *b(&force(a)),
        ),
    }
}

/// A random tree; names are numbered from `n`.
pub fn gen_tree<X: El>(t: &mut Tape, depth: usize, n: &mut usize) -> (Tree<X>, MT<X>) {
    let k = if depth == 0 { t.weighted(&[3, 1]) } else { t.weighted(&[2, 1, 4, 4, 2]) };
    *n += 1;
    let id = nm(*n);
    match k {
        0 => {
            let x = X::of(t.small(4));
            (Tree::Leaf(x.clone()), MT::Leaf(x))
        }
        1 => (Tree::Nil, MT::Nil),
        4 => {
            let (u, m) = gen_tree(t, depth - 1, n);
            let (a, _) = art_of(t, id, u);
            (Tree::Art(a), m)
        }
        _ => {
            let v = t.below(40);
            let (l, ml) = gen_tree(t, depth - 1, n);
            let (r, mr) = gen_tree(t, depth - 1, n);
            if k == 2 {
                (Tree::Bin(v, Box::new(l), Box::new(r)), MT::Bin(v, Box::new(ml), Box::new(mr)))
            } else {
                (Tree::Name(id.clone(), v, Box::new(l), Box::new(r)), MT::Name(id, v, Box::new(ml), Box::new(mr)))
            }
        }
    }
}

pub fn tok_fold<X: El>(t: Tree<X>, d: Dir2) -> Vec<Tok<X>> {
    fn p<X>(mut v: Vec<X>, x: X) -> Vec<X> {
        v.push(x);
        v
    }
    tree_fold_seq(t, d, vec![], Rc::new(|x, r| p(r, Tok::El(x))), Rc::new(|v, r| p(r, Tok::Bin(v))), Rc::new(|n, v, r| p(r, Tok::Name(n, v))))
}

fn c17_for<X: El>(c: &Case, t: &mut Tape, cx: &mut Cx) -> R {
    if t.chance(1, 3) {
        manage::init_naive();
        cx.label("cache-free");
    } else {
        manage::init_dcg();
    }
    let from_list = t.chance(1, 2);
    let big = t.big(60);
    cx.label_if(big, "large trees");
    let (mut tree, mut m): (Tree<X>, MT<X>) = if from_list {
        let (l, s, said) = ns(name_of_str("in"), || gen_list::<X>(t, if big { 300 } else { 30 }, 0, if big { 900 } else { 30 }));
        cx.show(|| said.clone());
        cx.digest(&said);
        let dir = if t.chance(1, 2) { Dir2::Right } else { Dir2::Left };
        let tree = ns(name_of_str("tree"), || tree_of_list::<_, _, Tree<X>, _>(dir, l));
        let m = walk(0, &tree);
        let mut want = s.clone();
        if dir == Dir2::Right {
            want.reverse()
        }
        ensure!(m.seq() == want, "the tree in direction {:?} of {:?} holds {:?}", dir, s, m.seq());
        ensure!(m.levels(usize::max_value()), "levels of the tree of {:?}: {}", s, m.up());
        cx.label("from a list");
        (tree, m)
    } else {
        let r = ns(name_of_str("in"), || gen_tree::<X>(t, if big { 9 } else { 4 }, &mut 0));
        cx.label("any shape");
        r
    };
    cx.show(|| m.up());
    cx.digest(&m);
    let mut interesting = false;
    for (step, op) in c.b.iter().enumerate() {
        let mut t = Tape::new(op);
        let k = t.below(13);
        let dir = if t.chance(1, 2) { Dir2::Right } else { Dir2::Left };
        let kf = t.below(4);
        let region = name_of_string(format!("step{}", step));
        let what = format!("step {}: operation {} {:?} {} on {}", step, k, dir, kf, m.up());
        cx.show(|| what.clone());
        cx.digest(&(k, kf, dir));
        let pf = pred_f::<X>(kf);
        let pb = { let p = pf.clone(); Box::new(move |x: &X| p(x)) };
        let seq = m.seq();
        let xs = elems(&seq);
        interesting |= !xs.is_empty() && seq.len() > xs.len();
        let t1 = tree.clone();
        match k {
            0 => {
                for k in 0..4 {
                    ensure!(walk(k, &tree) == m, "{}: elimination {} gives {}", what, k, walk(k, &tree).up())
                }
                ensure!(Tree::is_empty(&tree) == xs.is_empty(), "{}: is_empty", what);
                ensure!(Tree::is_nil(&tree) == (m == MT::Nil), "{}: is_nil", what);
                ensure!(Tree::lev_of_tree(&tree) == m.lev(), "{}: level", what);
            }
            1 | 2 => {
                let l: List<X> = ns(region, || list_of_tree(t1, dir));
                let mut want = seq;
                if dir == Dir2::Right {
                    want.reverse()
                }
                let got = whole(l.clone());
                ensure!(got == want, "{}: list {:?}", what, got);
                if k == 2 && distinct(&names(&want)) {
                    // And back to a tree, of its own shape.
                    let d2 = if kf % 2 == 0 { Dir2::Left } else { Dir2::Right };
                    tree = ns(name_of_string(format!("back{}", step)), || tree_of_list::<_, _, Tree<X>, _>(d2, l));
                    m = walk(0, &tree);
                    if d2 == Dir2::Right {
                        want.reverse()
                    }
                    ensure!(m.seq() == want, "{}: back as a tree {:?}: {:?}", what, d2, m.seq());
                    ensure!(m.levels(usize::max_value()), "{}: levels of the new tree: {}", what, m.up());
                    cx.label("list and back");
                }
            }
            3 => {
                let got = whole::<X, List<X>>(ns(region, || filter_list_of_tree(t1, pb)));
                let want: Vec<X> = xs.iter().filter(|x| pf(x)).cloned().collect();
                ensure!(elems(&got) == want, "{}: filtered to {:?}", what, got);
                // Names: at most one between kept elements, one if
                // there was one, and only those that were there.
                let groups = |s: &Seq<X>, p: &dyn Fn(&X) -> bool| {
                    let mut g: Vec<Vec<Name>> = vec![vec![]];
                    for i in s {
                        match i {
                            NameElse::Name(n) => g.last_mut().unwrap().push(n.clone()),
                            NameElse::Else(x) => {
                                if p(x) {
                                    g.push(vec![])
                                }
                            }
                        }
                    }
                    g
                };
                let (a, b) = (groups(&seq, &|x| pf(x)), groups(&got, &|_| true));
                ensure!(a.len() == b.len(), "{}: {:?}", what, got);
                for i in 0..a.len() {
                    let inner = i > 0 && i + 1 < a.len();
                    ensure!(b[i].len() <= 1 && b[i].iter().all(|n| a[i].contains(n)) && (!inner || b[i].len() == a[i].len().min(1)), "{}: names in {:?}", what, got)
                }
                cx.label("filter to a list");
            }
            4 => {
                let got: Tree<X> = ns(region, || filter_tree_of_tree(t1, pb));
                let gm = walk(1, &got);
                ensure!(gm == m.keep(&|x| pf(x)).prune(), "{}: filtered to {}", what, gm.up());
                if kf > 1 {
                    tree = got;
                    m = gm;
                }
                cx.label("filter to a tree");
            }
            5 => {
                let got: Tree<X> = ns(region, || prune_tree_of_tree(t1));
                let gm = walk(2, &got);
                ensure!(gm == m.prune(), "{}: pruned to {}", what, gm.up());
                tree = got;
                m = gm;
                cx.label("prune");
            }
            6 => {
                let got: Tree<X> = ns(region, || eager_tree_of_tree(t1));
                let flat = walk(3, &got);
                ensure!(flat == m, "{}: copied to {}", what, flat.up());
                fn arts<X>(t: &Tree<X>) -> bool {
                    match t {
                        Tree::Art(_) => true,
                        Tree::Bin(_, l, r) | Tree::Name(_, _, l, r) => arts(l) || arts(r),
                        _ => false,
                    }
                }
                ensure!(!arts(&got), "{}: articulations in the copy", what);
                if kf == 0 {
                    tree = got
                }
                cx.label("copy");
            }
            7 | 8 => {
                let got = ns(region, || tok_fold(t1, dir));
                let mut want = vec![];
                m.toks(&mut want);
                if dir == Dir2::Right {
                    want.reverse()
                }
                ensure!(got == want, "{}: folds to {:?} instead of {:?}", what, got, want);
                cx.label("fold in sequence");
            }
            9 => {
                let got: String = ns(region, || {
                    tree_fold_up(
                        t1,
                        Rc::new(|| "-".to_string()),
                        Rc::new(|x: X| format!("{:?}", x)),
                        Rc::new(|v: usize, l: String, r: String| format!("({} {} {})", l, v, r)),
                        Rc::new(|n: Name, v: usize, l: String, r: String| format!("({} {:?}.{} {})", l, n, v, r)),
                    )
                });
                ensure!(got == m.up(), "{}: folds up to {}", what, got);
                cx.label("fold up");
            }
            10 | 11 => {
                let n0 = if kf == 0 { None } else { Some(nm(5000 + kf)) };
                let n1 = n0.clone();
                let got: String = ns(region, || {
                    tree_fold_up_nm_dn(
                        t1,
                        n1,
                        Rc::new(|m: Option<Name>| format!("-{:?}", m)),
                        Rc::new(|m: Option<Name>, x: X| format!("{:?}{:?}", x, m)),
                        Rc::new(|m: Option<Name>, v: usize, l: String, r: String| format!("({} {}{:?} {})", l, v, m, r)),
                        Rc::new(|m: Option<Name>, n: Name, v: usize, l: String, r: String| format!("({} {:?}.{}{:?} {})", l, n, v, m, r)),
                    )
                });
                ensure!(got == m.up_down(n0.clone()), "{}: with names down, folds to {} instead of {}", what, got, m.up_down(n0));
                cx.label("fold with names down");
            }
            _ => {
                let got = ns(region, || monoid_of_tree(t1, X::id(), Rc::new(|a: X, b: X| a.join(&b))));
                ensure!(got == m.monoid(), "{}: sums up to {:?}", what, got);
                ensure!(got == xs.iter().fold(X::id(), |a, b| a.join(b)), "{}: sums up to {:?}", what, got);
                cx.label("monoid");
            }
        }
    }
    ensure!(walk(0, &tree) == m, "at the end, the tree is {} instead of {}", walk(0, &tree).up(), m.up());
    cx.nontrivial = interesting;
    Ok(())
}

/// The order of levels.
fn levels(t: &mut Tape) -> R {
    let (a, b) = (t.below(40), t.below(40));
    let (zero, top) = (<usize as Level>::zero(), <usize as Level>::max_val());
    ensure!(<usize as Level>::lte(&a, &b) == (a <= b), "levels {} and {} are out of order", a, b);
    ensure!(<usize as Level>::max(&a, &b) == a.max(b), "the higher of levels {} and {} is {}", a, b, <usize as Level>::max(&a, &b));
    ensure!(<usize as Level>::add(&a, &b) == a + b && <usize as Level>::inc(&a) == a + 1, "sums of levels {} and {}", a, b);
    ensure!(<usize as Level>::lte(&zero, &a) && <usize as Level>::lte(&a, &top) && zero == 0, "level {} is out of bounds", a);
    Ok(())
}

fn c17(c: &Case, cx: &mut Cx) -> R {
    let mut t = Tape::new(&c.a);
    if t.chance(1, 10) {
        levels(&mut t)?
    }
    match t.below(3) {
        0 => c17_for::<i64>(c, &mut t, cx),
        1 => c17_for::<String>(c, &mut t, cx),
        _ => c17_for::<(bool, Option<Box<i64>>)>(c, &mut t, cx),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C17",
        a: (10, 110),
        b: (1, 10),
        quick: 150_000,
        thorough: 5_000_000,
        run: c17,
        rule: "A tree of a random list (up to 30 items, either direction) or of any shape, three element types, seven kinds of articulations, and every operation on trees under either engine; non-trivial: an operation on a tree with both elements and names",
        assumptions: &["each pass runs in a namespace of its own and is given trees of distinct names, as its naming demands"],
    }]
}
