//! C10: named and unnamed articulations against a map from names to
//! contents.

use crate::engs::SYMS;
use crate::fw::*;
use crate::p_names::h;
use adapton::engine::*;
use adapton::macros::ProgPt;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum V {
    I(i64),
    S(String),
    L(Vec<i64>),
    Q(Quiet),
}
/// A value that shows and hashes nothing of itself, as types may.
#[derive(Clone, PartialEq, Eq)]
struct Quiet(i64);
impl std::hash::Hash for Quiet {
    fn hash<H: std::hash::Hasher>(&self, _: &mut H) {}
}
impl std::fmt::Debug for Quiet {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Quiet")
    }
}
fn size(v: &V) -> i64 {
    match v {
        V::I(i) => *i,
        V::S(s) => s.len() as i64,
        V::Q(q) => q.0,
        V::L(l) => l.iter().fold(l.len() as i64, |a, b| (a * 7 + b).rem_euclid(100_003)),
    }
}
fn val(t: &mut Tape) -> V {
    match t.below(5) {
        0 | 1 => V::I(t.small(3)),
        2 => V::S(["", "a", "b", "ab"][t.below(4)].into()),
        3 if t.chance(1, 8) => {
            // Long, and different from others at one place at most.
            let mut l = vec![0; [20, 70][t.below(2)]];
            let at = [0, 12, l.len() - 1][t.below(3)];
            l[at] = t.below(2) as i64;
            V::L(l)
        }
        3 => V::L((0..t.below(3)).map(|_| t.small(1)).collect()),
        _ => V::Q(Quiet(t.small(1))),
    }
}
/// A value to take a name from.
fn loud(t: &mut Tape) -> V {
    match val(t) {
        V::Q(q) => V::I(q.0),
        v => v,
    }
}

#[derive(Clone, Debug)]
enum Content {
    Cell(V),
    Thunk(V),
}
#[derive(Clone, Debug)]
enum What {
    Named(usize),
    Input(usize),
    Put(V),
    Eager(V),
    Naive(usize, V),
    Structural(usize, V),
    Observer(Vec<usize>),
}
struct World {
    inputs: Vec<Art<V>>,
    runs: std::cell::Cell<u64>,
    arts: std::cell::RefCell<Vec<Art<V>>>,
}

/// Function `k`: some read an input, fully or in part.
fn f(k: usize, a: &V, input: &mut dyn FnMut(usize, bool) -> i64) -> V {
    match k % 5 {
        0 => V::L(vec![size(a), input(0, false)]),
        1 => V::L(vec![size(a), 1]),
        2 => V::I(size(a) + input(1, true)),
        3 => V::I(input(0, false).max(0).min(1)),
        _ => {
            if input(0, true) == 0 {
                a.clone()
            } else {
                V::I(input(1, false))
            }
        }
    }
}
fn part(v: &V) -> V {
    V::I(size(v).rem_euclid(2))
}

fn call(k: usize, a: V, w: Rc<World>) -> V {
    w.runs.set(w.runs.get() + 1);
    f(k, &a, &mut |i, p| if p { size(&force_map(&w.inputs[i], |_, v| part(&v))) } else { size(&force(&w.inputs[i])) })
}
fn mk(id: NameChoice, k: usize, a: V, w: &Rc<World>) -> Art<V> {
    thunk(id, ProgPt { symbol: SYMS[k % 32] }, Rc::new(Box::new(move |a: V, w: Rc<World>| call(k, a, w))), a, w.clone())
}

struct M {
    w: Rc<World>,
    names: Vec<Name>,
    content: Vec<Content>,
    inputs: Vec<V>,
    /// Everything anyone holds, and what it is.
    pool: Vec<What>,
}
impl M {
    fn call(&self, k: usize, a: &V) -> V {
        f(k, a, &mut |i, p| if p { size(&part(&self.inputs[i])) } else { size(&self.inputs[i]) })
    }
    fn value(&self, w: &What) -> V {
        match w {
            What::Named(k) => match &self.content[*k] {
                Content::Cell(v) => v.clone(),
                Content::Thunk(a) => self.call(*k, a),
            },
            What::Input(i) => self.inputs[*i].clone(),
            What::Put(v) | What::Eager(v) => v.clone(),
            What::Naive(k, a) | What::Structural(k, a) => self.call(*k, a),
            What::Observer(ids) => V::L(ids.iter().map(|i| size(&self.value(&self.pool[*i]))).collect()),
        }
    }
    fn art(&self, i: usize) -> Art<V> {
        self.w.arts.borrow()[i].clone()
    }
    fn push(&mut self, w: What, a: Art<V>) {
        self.pool.push(w);
        self.w.arts.borrow_mut().push(a);
    }
}

const FIXED: [&str; 5] = ["n", "m", "1", "()", "n/l"];
fn nm(k: usize, fancy: bool) -> Name {
    if k > 4 {
        return if fancy { name_of_usize(k) } else { name_of_string(format!("n{}", k)) };
    }
    if !fancy {
        return name_of_str(FIXED[k]);
    }
    match k {
        0 => name_unit(),
        1 => name_of_usize(0),
        2 => name_of_isize(0),
        3 => name_fork(name_of_usize(0)).0,
        _ => name_pair(name_of_usize(0), name_unit()),
    }
}

struct Run {
    m: M,
    kinds: u32,
    observed: u32,
    changed: u32,
    last: Vec<Option<V>>,
}

impl Run {
    fn new(t: &mut Tape, cx: &mut Cx, many: bool) -> Run {
        let fancy = t.chance(1, 2);
        let nn = if many && t.big(40) { 2 + t.below(300) } else { 2 + t.below(4) };
        cx.label_if(nn > 10, "many names");
        let inputs: Vec<V> = (0..2).map(|_| val(t)).collect();
        let w = Rc::new(World {
            inputs: (0..2).map(|i| cell(name_of_string(format!("in{}", i)), inputs[i].clone())).collect(),
            runs: Default::default(),
            arts: Default::default(),
        });
        let mut m = M { w: w.clone(), names: (0..nn).map(|k| nm(k, fancy)).collect(), content: vec![], inputs, pool: vec![] };
        for i in 0..2 {
            m.push(What::Input(i), w.inputs[i].clone())
        }
        for k in 0..nn {
            let v = val(t);
            let th = t.chance(1, 2);
            let id = m.names[k].clone();
            let a = if th { mk(NameChoice::Nominal(id), k, v.clone(), &w) } else { cell(id, v.clone()) };
            m.content.push(if th { Content::Thunk(v) } else { Content::Cell(v) });
            m.push(What::Named(k), a);
        }
        cx.show(|| format!("names {:?}, contents {:?}, inputs {:?}", m.names, m.content, m.inputs));
        cx.digest(&format!("{:?}{:?}{:?}", m.names, m.content, m.inputs));
        Run { m, kinds: 0, observed: 0, changed: 0, last: vec![] }
    }

    fn step(&mut self, step: usize, op: &[u16; 4], cx: &mut Cx) -> R {
        let Run { m, kinds, observed, changed, last } = self;
        let w = m.w.clone();
        let nn = m.names.len();
        let d = more(op);
        let mut t = Tape::new(&d);
        let k = t.weighted(&[8, 3, 3, 3, 3, 2, 1, 1, 1, 2, 1]);
        let said: String;
        let fail = |s: String| Err(format!("step {}: {}", step, s));
        match k {
            0 | 10 => {
                let i = t.below(m.pool.len());
                let mode = t.below(3);
                let want = m.value(&m.pool[i]);
                said = format!("observe #{} {:?} ({})", i, m.pool[i], mode);
                let a = m.art(i);
                let got = match mode {
                    0 => force(&a),
                    1 => force_cycle(&a, None),
                    _ => {
                        let b = a.clone();
                        // The mapping is given the articulation, too
                        // (an unnamed thunk has only its value to give).
                        let tracked = !matches!(m.pool[i], What::Naive(..));
                        force_map(&a, move |c, v| if tracked && *c != b { V::S("another articulation".into()) } else { part(&v) })
                    }
                };
                let want = if mode == 2 { part(&want) } else { want };
                if got != want {
                    return fail(format!("{} yields {:?} instead of {:?}", said, got, want));
                }
                *observed += 1;
                last.resize(m.pool.len(), None);
                if mode < 2 {
                    if last[i].as_ref().map_or(false, |l| *l != want) {
                        *changed += 1
                    }
                    last[i] = Some(want);
                }
            }
            1 | 2 => {
                // Allocate again, perhaps as the other kind.
                let n = t.below(nn);
                let v = val(&mut t);
                let id = m.names[n].clone();
                let was = matches!(m.content[n], Content::Cell(_));
                said = format!("{:?} = {} {:?}", id, if k == 1 { "cell" } else { "thunk of" }, v);
                let a = if k == 1 { cell(id, v.clone()) } else { mk(NameChoice::Nominal(id), n, v.clone(), &w) };
                m.content[n] = if k == 1 { Content::Cell(v) } else { Content::Thunk(v) };
                *kinds += (was != (k == 1)) as u32;
                m.push(What::Named(n), a);
            }
            3 => {
                let hs: Vec<usize> = (0..m.pool.len())
                    .filter(|i| match &m.pool[*i] {
                        What::Named(n) => matches!(m.content[*n], Content::Cell(_)),
                        _ => false,
                    })
                    .collect();
                if hs.is_empty() {
                    return Ok(());
                }
                let i = hs[t.below(hs.len())];
                let v = val(&mut t);
                said = format!("set #{} {:?} to {:?}", i, m.pool[i], v);
                set(&m.art(i), v.clone());
                if let What::Named(n) = m.pool[i] {
                    m.content[n] = Content::Cell(v)
                }
            }
            4 => {
                let i = t.below(2);
                let v = val(&mut t);
                said = format!("set input {} to {:?}", i, v);
                if t.chance(1, 4) {
                    cell(name_of_string(format!("in{}", i)), v.clone());
                } else {
                    set(&w.inputs[i], v.clone());
                }
                m.inputs[i] = v;
            }
            5 => {
                let v = val(&mut t);
                said = format!("put {:?}", v);
                m.push(What::Put(v.clone()), put(v));
            }
            6 => {
                let (k, v) = (t.below(5), val(&mut t));
                said = format!("eager f{} {:?}", k, v);
                let want = m.call(k, &v);
                let a = mk(NameChoice::Eager, k, v, &w);
                m.push(What::Eager(want), a);
            }
            7 => {
                let (k, v) = (t.below(5), val(&mut t));
                said = format!("naive f{} {:?}", k, v);
                let a = mk(NameChoice::Naive, k, v.clone(), &w);
                m.push(What::Naive(k, v), a);
            }
            8 => {
                let (k, v) = (t.below(5), loud(&mut t));
                said = format!("structural f{} {:?}", k, v);
                let a = mk(NameChoice::Structural, k, v.clone(), &w);
                m.push(What::Structural(k, v), a);
            }
            _ => {
                let ids: Vec<usize> = (0..1 + t.below(4)).map(|_| t.below(m.pool.len())).collect();
                said = format!("#{} = an observer of {:?}", m.pool.len(), ids);
                let a = thunk(
                    NameChoice::Nominal(name_pair(name_of_str("observer"), name_of_usize(m.pool.len()))),
                    ProgPt { symbol: "observer" },
                    Rc::new(Box::new(|ids: Vec<usize>, w: Rc<World>| {
                        V::L(ids.iter().map(|i| { let a = w.arts.borrow()[*i].clone(); size(&force(&a)) }).collect())
                    })),
                    ids.clone(),
                    w.clone(),
                );
                m.push(What::Observer(ids), a);
            }
        }
        cx.digest(&said);
        cx.show(|| said.clone());
        Ok(())
    }

    /// At the end, everything is as it should be, for every holder.
    fn finish(&self) -> R {
        let m = &self.m;
        for i in 0..m.pool.len() {
            let (got, want) = (force(&m.art(i)), m.value(&m.pool[i]));
            ensure!(got == want, "at the end, #{} {:?} yields {:?} instead of {:?}", i, m.pool[i], got, want);
            for j in 0..m.pool.len() {
                let same = match (&m.pool[i], &m.pool[j]) {
                    (What::Named(a), What::Named(b)) => a == b,
                    (What::Put(a), What::Put(b)) => a == b,
                    (What::Eager(a), What::Put(b)) | (What::Put(a), What::Eager(b)) | (What::Eager(a), What::Eager(b)) => a == b,
                    (What::Named(_), _) | (_, What::Named(_)) | (What::Put(_), _) | (_, What::Put(_)) => false,
                    _ => continue,
                };
                ensure!((m.art(i) == m.art(j)) == same, "#{} {:?} and #{} {:?} are equal: {}", i, m.pool[i], j, m.pool[j], !same);
                ensure!(!same || h(&m.art(i)) == h(&m.art(j)), "#{} and #{} are equal but hash differently", i, j);
            }
        }
        Ok(())
    }
}

/// More choices, determined by those given.
pub fn more(op: &[u16; 4]) -> Vec<u16> {
    let mut d = op.to_vec();
    for i in 0..6u64 {
        d.push(h(&(op, i)) as u16)
    }
    d
}

fn c10(c: &Case, cx: &mut Cx) -> R {
    manage::init_dcg();
    let mut t = Tape::new(&c.a);
    let mut run = Run::new(&mut t, cx, true);
    for (step, op) in c.b.iter().enumerate() {
        run.step(step, op, cx)?
    }
    run.finish()?;
    let m = &run.m;
    cx.label_if(run.kinds > 0, "a name changed kind");
    cx.label_if(run.changed > 0, "a holder observed a change");
    cx.label_if(m.pool.iter().any(|w| matches!(w, What::Observer(_))), "observed by a computation");
    cx.label_if(m.pool.iter().any(|w| matches!(w, What::Naive(..) | What::Eager(_))), "unnamed thunks");
    cx.label_if(m.pool.iter().any(|w| matches!(w, What::Put(..))), "unnamed cells");
    cx.nontrivial = run.observed > 0 && (run.changed > 0 || run.kinds > 0);
    Ok(())
}

// ------------------------------------------------------------------ C11

struct PartFam;
impl AbsMapFam<(), (), V, bool, V> for PartFam {
    fn map(&self, _: (), v: V) -> V {
        part(&v)
    }
    fn abs(&self, _: ()) {}
    fn join(&self, _: (), _: ()) {}
    fn diff(&self, a: &V, b: &V) -> bool {
        part(a) != part(b)
    }
    fn is_dirty(&self, d: bool, _: &()) -> bool {
        d
    }
}

/// The misuses that are rejected before anything has changed.
fn misuse_outside(k: usize, t: &mut Tape, run: &Run) -> Option<(String, Box<dyn Fn()>)> {
    let m = &run.m;
    let w = m.w.clone();
    let n = t.below(m.names.len());
    let id = m.names[n].clone();
    let pick = |t: &mut Tape, f: &dyn Fn(&What) -> bool| -> Option<usize> {
        let is: Vec<usize> = (0..m.pool.len()).filter(|i| f(&m.pool[*i])).collect();
        if is.is_empty() {
            None
        } else {
            Some(is[t.below(is.len())])
        }
    };
    Some(match k {
        0 => {
            let ty = t.below(4);
            let s = format!("cell {:?} at another type ({}); it is {:?}", id, ty, m.content[n]);
            let f = move || {
                let id = id.clone();
                match ty {
                    0 => drop(cell(id, 1i64)),
                    1 => drop(cell(id, "1".to_string())),
                    2 => drop(cell(id, Some(V::I(1)))),
                    _ => drop(cell(id, (V::I(1), V::I(1)))),
                }
            };
            (s, Box::new(f))
        }
        1 => {
            let same_pt = t.chance(1, 2) && matches!(m.content[n], Content::Thunk(_));
            let s = format!("thunk {:?} at another type; it is {:?}", id, m.content[n]);
            let f = move || {
                let pt = ProgPt { symbol: if same_pt { SYMS[n] } else { "other" } };
                drop(thunk(NameChoice::Nominal(id.clone()), pt, Rc::new(Box::new(|v: V, _: Rc<World>| size(&v))), V::I(0), w.clone()))
            };
            (s, Box::new(f))
        }
        2 => {
            let a = match &m.content[n] {
                Content::Thunk(a) => a.clone(),
                _ => return None,
            };
            let other = (n + 1 + t.below(4)) % 5;
            let v = if t.chance(1, 2) { a } else { val(t) };
            let s = format!("thunk {:?} with another function {} of {:?}", id, other, v);
            (s, Box::new(move || drop(mk(NameChoice::Nominal(id.clone()), other, v.clone(), &w))))
        }
        3 => {
            let i = pick(t, &|x| matches!(x, What::Put(_) | What::Eager(_) | What::Naive(..)))?;
            let v = if t.chance(1, 2) { m.value(&m.pool[i]) } else { val(t) };
            let a = m.art(i);
            (format!("set #{} {:?} to {:?}", i, m.pool[i], v), Box::new(move || set(&a, v.clone())))
        }
        4 => {
            let i = pick(t, &|x| match x {
                What::Named(n) => matches!(m.content[*n], Content::Thunk(_)),
                What::Observer(_) | What::Structural(..) => true,
                _ => false,
            })?;
            let v = val(t);
            let a = m.art(i);
            (format!("set #{} {:?}, a thunk, to {:?}", i, m.pool[i], v), Box::new(move || set(&a, v.clone())))
        }
        5 => {
            let i = pick(t, &|x| matches!(x, What::Named(_) | What::Input(_) | What::Observer(_) | What::Structural(..)))?;
            let mode = t.below(6);
            let a = m.art(i);
            let s = format!("observe or set ({}) #{} {:?} under the cache-free engine", mode, i, m.pool[i]);
            let f = move || {
                let e = manage::init_naive();
                let r = catch(|| match mode {
                    0 => drop(force(&a)),
                    1 => drop(force_cycle(&a, None)),
                    2 => drop(force_cycle(&a, Some(V::I(0)))),
                    3 => drop(force_map(&a, |_, v| part(&v))),
                    4 => drop(force_abs(Box::new(PartFam), (), a.clone())),
                    _ => set(&a, V::I(1)),
                });
                let n = manage::use_engine(e);
                assert!(matches!(n, Engine::Naive), "harness: the engine swapped out is the cache-free one");
                if let Err(e) = r {
                    panic!("{}", e)
                }
            };
            (s, Box::new(f))
        }
        6 => ("begin recording twice".into(), Box::new(|| {
            adapton::reflect::dcg_reflect_begin();
            let r = catch(|| adapton::reflect::dcg_reflect_begin());
            // The first recording goes on.
            let tr = adapton::reflect::dcg_reflect_end();
            assert!(tr.is_empty());
            if let Err(e) = r {
                panic!("{}", e)
            }
        })),
        7 => ("end a recording that has not begun".into(), Box::new(|| drop(adapton::reflect::dcg_reflect_end()))),
        _ => {
            if !matches!(m.content[n], Content::Thunk(_)) {
                return None;
            }
            let ty = t.below(4);
            let x = t.small(3);
            (format!("thunk {:?} with an argument of another type ({}, {})", id, ty, x), Box::new(move || retyped(&id, n, ty, x, &w)))
        }
    })
}

/// A thunk of that name and program point, and with a result of the
/// same type, but with an argument of another type.
fn retyped(id: &Name, n: usize, ty: usize, x: i64, w: &Rc<World>) {
    fn go<A: 'static + Eq + std::hash::Hash + Clone + std::fmt::Debug>(id: &Name, n: usize, a: A, w: &Rc<World>) {
        drop(thunk(NameChoice::Nominal(id.clone()), ProgPt { symbol: SYMS[n] }, Rc::new(Box::new(|_: A, _: Rc<World>| V::I(0))), a, w.clone()))
    }
    match ty {
        0 => go(id, n, x, w),
        1 => go(id, n, (V::I(x), V::I(x)), w),
        2 => go(id, n, x.to_string(), w),
        _ => go(id, n, (), w),
    }
}

/// Misuses from within computations; the engine is given up afterwards.
fn misuse_inside(k: usize, t: &mut Tape, run: &Run) -> Option<(String, Box<dyn Fn()>)> {
    let m = &run.m;
    let w = m.w.clone();
    let depth = t.below(4);
    // The misuse may wait for an input to change.
    let first_fine = t.chance(1, 2);
    let gate: Art<V> = cell(name_of_str("gate"), V::I(0));
    let mode = t.below(4);
    let n = t.below(m.names.len());
    let id = m.names[n].clone();
    let thunk_n = matches!(m.content[n], Content::Thunk(_));
    let input = t.below(2);
    let same = t.chance(1, 2);
    let inval = m.inputs[input].clone();
    let body: Rc<dyn Fn()> = match k {
        0 => {
            // Even setting what is there already.
            let v = if same { inval } else { val(t) };
            let a = w.inputs[input].clone();
            Rc::new(move || set(&a, v.clone()))
        }
        1 => Rc::new(move || drop(cell(id.clone(), 1i64))),
        2 => {
            if !thunk_n {
                return None;
            }
            let w = w.clone();
            Rc::new(move || drop(mk(NameChoice::Nominal(id.clone()), (n + 1) % 5, V::I(0), &w)))
        }
        3 => Rc::new(|| ()),
        _ => {
            if !thunk_n {
                return None;
            }
            let w = w.clone();
            Rc::new(move || retyped(&id, n, mode, 1, &w))
        }
    };
    let what = ["set an input", "another type for a name", "another function for a name", "a cycle without a cycle value", "another argument type for a name"][k];
    let s = format!("{} {:?} from within a computation, at depth {}, after a legal run: {}", what, m.names[n], depth, first_fine);
    #[derive(Clone)]
    struct Cx {
        gate: Art<V>,
        body: Rc<dyn Fn()>,
        cycle: bool,
        depth: usize,
        mode: usize,
    }
    fn make(d: usize, cx: &Cx) -> Art<V> {
        thunk(
            NameChoice::Nominal(name_pair(name_of_str("misuse"), name_of_usize(d))),
            ProgPt { symbol: "misuse" },
            Rc::new(Box::new(|d: usize, cx: Cx| {
                if d < cx.depth {
                    return force(&make(d + 1, &cx));
                }
                if force(&cx.gate) == V::I(1) {
                    if cx.cycle {
                        let a = make(0, &cx);
                        return match cx.mode {
                            0 => force(&a),
                            1 => force_cycle(&a, None),
                            2 => force_map(&a, |_, v| v),
                            _ => force_abs(Box::new(PartFam), (), a),
                        };
                    }
                    (cx.body)()
                }
                V::I(7)
            })),
            d,
            cx.clone(),
        )
    }
    let cx = Cx { gate: gate.clone(), body, cycle: k == 3, depth, mode };
    let f = move || {
        let a = make(0, &cx);
        if first_fine {
            if let Err(e) = catch(|| assert!(force(&a) == V::I(7))) {
                HARM.with(|h| *h.borrow_mut() = Some(format!("a legal run before the misuse failed: {}", e)));
            }
        }
        set(&gate, V::I(1));
        drop(force(&a))
    };
    Some((s, Box::new(f)))
}
thread_local!(static HARM: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None));

/// Uses that look like the misuses but are legal.
fn legal(k: usize, t: &mut Tape, run: &Run) -> Result<String, String> {
    let m = &run.m;
    let w = m.w.clone();
    let n = t.below(m.names.len());
    let id = m.names[n].clone();
    let sp = name_of_usize(900 + t.below(2));
    let v = val(t);
    Ok(match k {
        0 => {
            // The same names at other types, in namespaces of their own.
            let a = ns(sp.clone(), || cell(name_pair(id.clone(), name_of_str("int")), 5i64));
            let b = ns(name_pair(sp, name_of_str("text")), || cell(name_pair(id.clone(), name_of_str("int")), "five".to_string()));
            ensure!(force(&a) == 5 && force(&b) == "five", "one name at two types in two namespaces gives {:?} and {:?}", force(&a), force(&b));
            format!("use {:?} at another type in another namespace", id)
        }
        1 => {
            let other = (n + 1) % 5;
            let f = |k: usize| ns(name_pair(name_of_str("function"), name_of_usize(k)), || mk(NameChoice::Nominal(id.clone()), k, v.clone(), &w));
            let (a, b) = (f(n), f(other));
            ensure!(force(&a) == m.call(n, &v), "f{} of {:?} gives {:?}", n, v, force(&a));
            ensure!(force(&b) == m.call(other, &v), "f{} of {:?} gives {:?}", other, v, force(&b));
            format!("use {:?} for another function in another namespace", id)
        }
        2 => {
            for _ in 0..2 {
                adapton::reflect::dcg_reflect_begin();
                let i = t.below(m.pool.len());
                force(&m.art(i));
                adapton::reflect::dcg_reflect_end();
            }
            "record twice in a row".into()
        }
        3 => {
            for i in 0..m.pool.len() {
                let (got, want) = (force_cycle(&m.art(i), Some(V::S("cycle".into()))), m.value(&m.pool[i]));
                ensure!(got == want, "#{} {:?} demanded with a cycle value gives {:?} instead of {:?}", i, m.pool[i], got, want);
            }
            "demand all with a cycle value".into()
        }
        4 => crate::p_struct::typed(t, name_pair(name_of_str("alike"), sp))?,
        _ => {
            // Untracked articulations under the cache-free engine.
            let e = manage::init_naive();
            let a = put(v.clone());
            let f: Art<i64> = thunk(NameChoice::Nominal(id.clone()), ProgPt { symbol: "legal" }, Rc::new(Box::new(|v: V, _: ()| size(&v))), v.clone(), ());
            let r = catch(|| (force(&a), force(&f), force_map(&f, |_, x| x + 1)));
            manage::use_engine(e);
            ensure!(r == Ok((v.clone(), size(&v), size(&v) + 1)), "under the cache-free engine: {:?}", r);
            "use the cache-free engine".into()
        }
    })
}

fn c11(c: &Case, cx: &mut Cx) -> R {
    manage::init_dcg();
    let mut t = Tape::new(&c.a);
    let mut run = Run::new(&mut t, cx, false);
    let mut misused = 0;
    for (step, op) in c.b.iter().enumerate() {
        let at = |s: String| format!("step {}: {}", step, s);
        if op[3] % 4 != 0 {
            run.step(step, op, cx).map_err(|e| format!("after {} misuses, {}", misused, e))?;
            continue;
        }
        let d = more(op);
        let mut t = Tape::new(&d);
        if t.chance(1, 3) {
            let k = t.below(6);
            let s = legal(k, &mut t, &run).map_err(at)?;
            cx.digest(&s);
            cx.show(|| s.clone());
            cx.label("a legal near miss");
            continue;
        }
        let k = t.below(9);
        if let Some((s, f)) = misuse_outside(k, &mut t, &run) {
            cx.digest(&s);
            cx.show(|| s.clone());
            let r = catch(|| f());
            match r {
                Ok(()) => return Err(at(format!("not rejected: {}", s))),
                Err(m) => ensure!(!m.contains("harness:"), "step {}: {}: {}", step, s, m),
            }
            misused += 1;
            cx.label(["type of a cell", "type of a thunk", "function of a thunk", "set an immutable one", "set a thunk", "cache-free engine", "nested recording", "recording not begun", "argument type of a thunk"][k]);
            cx.label("went on after a misuse");
        }
    }
    run.finish().map_err(|e| format!("after {} misuses, {}", misused, e))?;
    let k = t.below(6);
    if k < 5 {
        if let Some((s, f)) = misuse_inside(k, &mut t, &run) {
            cx.digest(&s);
            cx.show(|| s.clone());
            let r = catch(|| f());
            if let Some(e) = HARM.with(|h| h.borrow_mut().take()) {
                return Err(e);
            }
            ensure!(r.is_err(), "not rejected: {}", s);
            misused += 1;
            cx.label(["set within a computation", "type within a computation", "function within a computation", "cycle without a value", "argument type within a computation"][k]);
        }
    }
    cx.nontrivial = misused > 0;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C10",
        a: (10, 40),
        b: (3, 30),
        quick: 300_000,
        thorough: 5_000_000,
        run: c10,
        rule: "Up to five names, two inputs and a growing pool of holders, under a history of allocations as either kind, updates, observations in three modes, unnamed articulations and observing computations; non-trivial: something was observed, and a name changed kind or a holder saw a change",
        assumptions: &["each name keeps one function for its thunks and one type, as the engine demands"],
    },
    Prop {
        id: "C11",
        a: (20, 60),
        b: (2, 24),
        quick: 300_000,
        thorough: 5_000_000,
        run: c11,
        rule: "The histories of C10 with misuses (at two types, for another function, setting what is immutable or from within a computation, a cycle without value, tracked under the cache-free engine, nested recordings) and legal near misses at generated points; each misuse must panic and, outside computations, leave everything else as it was; non-trivial: at least one misuse",
        assumptions: &["after a panic inside a computation the engine is given up"],
    }]
}
