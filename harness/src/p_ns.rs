//! C09: namespaces against lexical scope.

use crate::fw::*;
use crate::p_names::h;
use adapton::engine::*;
use adapton::macros::ProgPt;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Hash, Debug)]
enum A {
    /// Allocates (or re-allocates) a cell; its content is a function of
    /// where it is allocated.
    Cell(usize),
    Read(usize),
    Force(usize, usize),
    Ns(usize, Vec<A>),
    If(usize, Vec<A>, Vec<A>),
    /// Allocates a thunk; the site names it and gives its body.
    Inner(usize),
    /// Demands a thunk allocated earlier in this body.
    ForceInner(usize, usize),
    AskPath,
    /// A structural region, which names nothing but must restore.
    Structural(Vec<A>),
}
#[derive(Hash, Debug)]
struct Def {
    path: Vec<usize>,
    name: usize,
    body: Vec<A>,
}
type Path = Vec<usize>;

fn nm(k: usize) -> Name {
    match k {
        0 => name_of_str("a"),
        1 => name_of_str("b"),
        2 => name_pair(name_of_str("a"), name_of_str("b")),
        3 => name_fork(name_of_str("a")).0,
        4 => name_unit(),
        k => name_of_usize(k),
    }
}

struct C9 {
    defs: Vec<Def>,
    sites: Vec<Vec<A>>,
    inputs: Vec<Art<i64>>,
    thunks: RefCell<Vec<Art<i64>>>,
    by_key: RefCell<HashMap<(Path, usize), Art<i64>>>,
    by_art: RefCell<HashMap<Art<i64>, (Path, usize)>>,
    errs: RefCell<Vec<String>>,
    stats: RefCell<[u64; 4]>,
}

struct Gen<'a, 'b> {
    t: &'a mut Tape<'b>,
    sites: Vec<Vec<A>>,
    lim: usize,
    nin: usize,
    budget: usize,
}
impl<'a, 'b> Gen<'a, 'b> {
    fn acts(&mut self, depth: usize, mut locals: usize, own: &mut usize, structural: bool) -> Vec<A> {
        let n = 1 + self.t.below(4);
        let mut v = vec![];
        for _ in 0..n {
            if self.budget == 0 {
                break;
            }
            self.budget -= 1;
            let d = (depth > 0) as usize;
            let f = (self.lim > 0) as usize;
            let s = !structural as usize;
            let a = match self.t.weighted(&[3, 2, 4 * f, 4 * d, 2 * d, 2 * d * s, if locals > 0 { 3 } else { 0 }, 1, d * s]) {
                0 => A::Cell(self.t.below(3)),
                1 => A::Read(self.t.below(self.nin)),
                2 => A::Force(self.t.below(self.lim), self.t.below(3)),
                3 => {
                    let k = self.t.below(5);
                    // Locals allocated inside stay visible afterwards; they
                    // are counted when generated, and skipped if absent.
                    A::Ns(k, self.acts(depth - 1, locals, own, structural))
                }
                4 => {
                    let i = self.t.below(self.nin);
                    let x = self.acts(depth - 1, locals, own, structural);
                    A::If(i, x, self.acts(depth - 1, locals, own, structural))
                }
                5 => {
                    let mut none = 0;
                    let b = self.acts(depth - 1, 0, &mut none, false);
                    self.sites.push(b);
                    locals += 1;
                    *own += 1;
                    A::Inner(self.sites.len() - 1)
                }
                6 => A::ForceInner(self.t.below(locals), self.t.below(3)),
                7 => A::AskPath,
                _ => A::Structural(self.acts(depth - 1, locals, own, true)),
            };
            v.push(a)
        }
        v
    }
}

/// What a cell holds, given where it is allocated.
fn content(path: &Path, k: usize) -> i64 {
    (h(&(path, k)) % 1000) as i64
}
fn mix(acc: i64, v: i64) -> i64 {
    (acc * 31 + v).rem_euclid(1_000_003)
}
fn seen(mode: usize, v: i64) -> i64 {
    if mode == 1 {
        v % 7
    } else {
        v
    }
}
fn demand(a: &Art<i64>, mode: usize) -> i64 {
    match mode {
        0 => force(a),
        1 => force_map(a, |_, v| v % 7),
        _ => force_cycle(a, Some(-1)),
    }
}
fn within<T>(path: &[usize], f: &mut dyn FnMut() -> T) -> T {
    match path.split_first() {
        None => f(),
        Some((k, rest)) => ns(nm(*k), || within(rest, f)),
    }
}
const PROBE: usize = 90;

impl C9 {
    fn err(&self, s: String) {
        let mut e = self.errs.borrow_mut();
        if e.len() < 3 {
            e.push(s)
        }
    }
    fn register(&self, path: &Path, k: usize, a: &Art<i64>) {
        let key = (path.clone(), k);
        if let Some(b) = self.by_key.borrow().get(&key) {
            if a != b {
                self.err(format!("name {} in namespace {:?} gives another articulation than before: {:?} and {:?}", k, path, b, a))
            }
            return;
        }
        if let Some(other) = self.by_art.borrow().get(a) {
            self.err(format!("name {} in namespace {:?} gives the articulation of name {} in {:?}", k, path, other.1, other.0))
        }
        self.by_key.borrow_mut().insert(key.clone(), a.clone());
        self.by_art.borrow_mut().insert(a.clone(), key);
    }
    fn probe(&self, path: &Path) {
        self.register(path, PROBE, &cell(nm(PROBE), 0))
    }
    fn ask(&self, path: &Path) {
        let want: Vec<Name> = path.iter().map(|k| nm(*k)).collect();
        let got = adapton::reflect::dcg_reflect_now().unwrap().path;
        if got != want {
            self.err(format!("the namespace in force is {:?} instead of {:?}", got, want))
        }
    }
}

fn run(cx: &Rc<C9>, acts: &[A], path: &Path, locals: &mut Vec<(Art<i64>, usize)>, structural: bool) -> i64 {
    let mut acc = 1;
    for a in acts {
        let v = match a {
            A::Cell(k) => {
                let want = content(path, *k);
                let c = cell(nm(10 + k), want);
                if !structural {
                    cx.register(path, 10 + k, &c);
                }
                let got = force(&c);
                if got != want {
                    cx.err(format!("cell {} in {:?} holds {} instead of {}", k, path, got, want))
                }
                got
            }
            A::Read(i) => force(&cx.inputs[*i]),
            A::Force(j, m) => {
                let t = cx.thunks.borrow()[*j].clone();
                demand(&t, *m)
            }
            A::Ns(k, b) => {
                let mut p = path.clone();
                p.push(*k);
                cx.stats.borrow_mut()[0] += 1;
                ns(nm(*k), || run(cx, b, &p, locals, structural))
            }
            A::If(i, x, y) => {
                if force(&cx.inputs[*i]) > 0 {
                    run(cx, x, path, locals, structural)
                } else {
                    run(cx, y, path, locals, structural)
                }
            }
            A::Inner(s) => {
                let t = alloc(cx, *s, 20 + s, path);
                cx.register(path, 20 + s, &t);
                locals.push((t, *s));
                0
            }
            A::ForceInner(i, m) => match locals.get(*i) {
                None => 0,
                Some((t, _)) => {
                    let t = t.clone();
                    demand(&t, *m)
                }
            },
            A::AskPath => {
                cx.ask(path);
                0
            }
            A::Structural(b) => structural_region(cx, b, path, locals),
        };
        if !structural {
            cx.probe(path);
        }
        acc = mix(acc, v)
    }
    acc
}
fn structural_region(cx: &Rc<C9>, b: &[A], path: &Path, locals: &mut Vec<(Art<i64>, usize)>) -> i64 {
    // Demands inside a structural region run the demanded code there too;
    // only cells and reads are used, so that no name is in play.
    adapton::engine::structural(|| run(cx, &b.iter().filter(|a| matches!(a, A::Cell(_) | A::Read(_))).cloned().collect::<Vec<_>>(), path, locals, true))
}
fn alloc(cx: &Rc<C9>, body: usize, name: usize, path: &Path) -> Art<i64> {
    // Every third inner thunk is named by its content (which includes where
    // it is allocated), one way or the other.
    let by_content = body < 1000 && body % 3 == 1;
    if by_content && body % 2 == 1 {
        return adapton::engine::structural(|| alloc_as(cx, body, NameChoice::Nominal(nm(name)), path));
    }
    alloc_as(cx, body, if by_content { NameChoice::Structural } else { NameChoice::Nominal(nm(name)) }, path)
}
fn alloc_as(cx: &Rc<C9>, body: usize, name: NameChoice, path: &Path) -> Art<i64> {
    thunk(
        name,
        ProgPt { symbol: crate::engs::SYMS[body % 32] },
        Rc::new(Box::new(|(body, path): (usize, Path), cx: Rc<C9>| {
            cx.stats.borrow_mut()[1] += 1;
            cx.probe(&path);
            let acts = if body >= 1000 { cx.defs[body - 1000].body.clone() } else { cx.sites[body].clone() };
            run(&cx, &acts, &path, &mut vec![], false)
        })),
        (body, path.clone()),
        cx.clone(),
    )
}

/// The same without an engine: values by lexical scope.
fn pure(cx: &C9, acts: &[A], path: &Path, inp: &[i64], locals: &mut Vec<i64>, structural: bool, fuel: &mut usize) -> i64 {
    let mut acc = 1;
    for a in acts {
        *fuel = fuel.saturating_sub(1);
        if *fuel == 0 {
            return 0;
        }
        let v = match a {
            A::Cell(k) => content(path, *k),
            A::Read(i) => inp[*i],
            A::Force(j, m) => seen(*m, pure(cx, &cx.defs[*j].body, &cx.defs[*j].path, inp, &mut vec![], false, fuel)),
            A::Ns(k, b) => {
                let mut p = path.clone();
                p.push(*k);
                pure(cx, b, &p, inp, locals, structural, fuel)
            }
            A::If(i, x, y) => pure(cx, if inp[*i] > 0 { x } else { y }, path, inp, locals, structural, fuel),
            A::Inner(s) => {
                let v = pure(cx, &cx.sites[*s], path, inp, &mut vec![], false, fuel);
                locals.push(v);
                0
            }
            A::ForceInner(i, m) => locals.get(*i).map_or(0, |v| seen(*m, *v)),
            A::AskPath => 0,
            A::Structural(b) => {
                let b: Vec<A> = b.iter().filter(|a| matches!(a, A::Cell(_) | A::Read(_))).cloned().collect();
                pure(cx, &b, path, inp, locals, true, fuel)
            }
        };
        acc = mix(acc, v)
    }
    acc
}

/// A long path, which differs from others of its length at one place or so.
fn long_path(n: usize, r: u16) -> Path {
    let r = r as usize;
    let mut p = vec![0; n];
    match r % 4 {
        0 => (),
        1 => p[0] = 1,
        2 => p[n / 2] = 1,
        _ => p[n - 1] = 1,
    }
    if r / 4 % 4 == 1 {
        p.pop();
    }
    p
}

fn c09(c: &Case, cx: &mut Cx) -> R {
    manage::init_dcg();
    let mut t = Tape::new(&c.a);
    let nin = 1 + t.below(2);
    let nd = 1 + t.below(5);
    let deep = 3 + t.below(60);
    let gen_path = |t: &mut Tape| -> Path {
        if t.chance(1, 8) {
            return long_path(deep, t.raw());
        }
        let n = t.weighted(&[3, 3, 2, 1]);
        (0..n).map(|_| t.below(5)).collect()
    };
    let mut defs: Vec<Def> = vec![];
    let mut sites = vec![];
    for i in 0..nd {
        let path = gen_path(&mut t);
        // The same name is used in several namespaces.
        let mut name = 5 + t.below(2);
        while defs.iter().any(|d| d.path == path && d.name == 1000 + name) {
            name += 2
        }
        let mut g = Gen { t: &mut t, sites, lim: i, nin, budget: 14 };
        let body = g.acts(3, 0, &mut 0, false);
        sites = g.sites;
        defs.push(Def { path, name: 1000 + name, body });
    }
    let mut inp: Vec<i64> = (0..nin).map(|_| t.below(2) as i64).collect();
    let in_paths: Vec<Path> = (0..nin).map(|_| gen_path(&mut t)).collect();
    cx.show(|| format!("inputs {:?} {:?} thunks {:?} inner {:?}", in_paths, inp, defs, sites));
    cx.digest(&format!("{:?}{:?}{:?}", in_paths, defs, sites));
    let inputs = (0..nin).map(|i| within(&in_paths[i], &mut || cell(nm(2000 + i), inp[i]))).collect();
    let w = Rc::new(C9 {
        defs,
        sites,
        inputs,
        thunks: RefCell::new(vec![]),
        by_key: Default::default(),
        by_art: Default::default(),
        errs: Default::default(),
        stats: Default::default(),
    });
    // Programs that would run too long are skipped.
    let mut fuel = 3000;
    let mut want = |inp: &[i64], i: usize| pure(&w, &w.defs[i].body, &w.defs[i].path, inp, &mut vec![], false, &mut fuel);
    for i in 0..nd {
        want(&inp, i);
    }
    if fuel == 0 {
        cx.label("stopped: too big");
        return Ok(());
    }
    let make = |i: usize| {
        let d = &w.defs[i];
        within(&d.path, &mut || alloc(&w, 1000 + i, d.name, &d.path))
    };
    for i in 0..nd {
        let a = make(i);
        w.register(&w.defs[i].path, w.defs[i].name, &a);
        w.thunks.borrow_mut().push(a);
    }
    let (mut demands, mut reruns) = (0, 0);
    let mut demanded = vec![false; nd];
    let root: Path = vec![];
    let end = [[0u16; 4]];
    for (step, op) in c.b.iter().chain(end.iter()).enumerate() {
        let mut t = Tape::new(op);
        let k = t.weighted(&[6, 5, 1, 1, 1]);
        let path: Path = match t.below(5) {
            4 if op[3] % 3 == 0 => long_path(deep, op[3] / 3),
            0 => vec![],
            1 => vec![op[3] as usize % 5],
            _ => vec![op[3] as usize % 5, op[3] as usize / 5 % 5],
        };
        let fail = |s: String| Err(format!("step {}: {}", step, s));
        cx.digest(&(k, op));
        match k {
            0 => {
                let i = t.below(nd);
                let mode = (op[3] / 100) as usize % 3;
                let mut f = 1_000_000;
                let v = seen(mode, pure(&w, &w.defs[i].body, &w.defs[i].path, &inp, &mut vec![], false, &mut f));
                let a = w.thunks.borrow()[i].clone();
                let before = w.stats.borrow()[1];
                cx.show(|| format!("demand T{} from {:?}", i, path));
                let got = within(&path, &mut || {
                    let g = demand(&a, mode);
                    w.probe(&path);
                    g
                });
                if got != v {
                    return fail(format!("T{} gives {} instead of {}", i, got, v));
                }
                if demanded[i] && w.stats.borrow()[1] > before {
                    reruns += 1
                }
                demanded[i] = true;
                demands += 1;
            }
            1 => {
                let i = t.below(nin);
                let v = (op[3] % 3) as i64;
                inp[i] = v;
                cx.show(|| format!("in{} := {}", i, v));
                if op[3] % 7 == 0 {
                    // By allocating it again where it is.
                    let a = within(&in_paths[i], &mut || cell(nm(2000 + i), v));
                    if a != w.inputs[i] {
                        return fail(format!("input {} is another articulation now", i));
                    }
                } else {
                    within(&path, &mut || set(&w.inputs[i], v));
                }
            }
            2 => {
                let i = t.below(nd);
                let a = make(i);
                w.register(&w.defs[i].path, w.defs[i].name, &a);
            }
            3 => {
                within(&path, &mut || w.probe(&path));
                within(&path, &mut || w.ask(&path));
            }
            _ => {
                let k = t.below(3);
                within(&path, &mut || {
                    let a = cell(nm(10 + k), content(&path, k));
                    w.register(&path, 10 + k, &a);
                });
            }
        }
        w.probe(&root);
        w.ask(&root);
        if let Some(e) = w.errs.borrow().first() {
            return fail(e.clone());
        }
    }
    let st = w.stats.borrow();
    cx.label_if(st[0] > 0, "namespaces inside thunks");
    cx.label_if(w.by_key.borrow().keys().any(|k| k.0.len() > 8), "long paths");
    cx.label_if(reruns > 0, "thunks re-executed by a later demand");
    cx.label_if(w.by_key.borrow().keys().any(|k| k.1 < 1000 && w.by_key.borrow().keys().any(|l| l.1 == k.1 && l.0 != k.0)), "one name in several namespaces");
    cx.label_if(!w.sites.is_empty(), "thunks allocated by thunks");
    cx.nontrivial = demands > 0 && st[1] > 0 && w.by_key.borrow().keys().any(|k| !k.0.is_empty());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C09",
        a: (20, 200),
        b: (1, 14),
        quick: 120_000,
        thorough: 3_000_000,
        run: c09,
        rule: "Up to five thunks in random namespaces, with bodies of nested namespaces, allocations, conditionals, inner thunks and demands of each other, under a history of demands from random namespaces and of edits; non-trivial: user code ran and something was allocated outside the root namespace",
        assumptions: &["thunks are not demanded inside structural regions here (see C04)"],
    }]
}
