//! Large dependency graphs and long histories, against a model that keeps,
//! per thunk, what its last run observed: the parts of C01, C02, C03, C05 and
//! C07 that do not depend on what a program looks like, at sizes that the
//! generated programs of `lang` do not reach.

use crate::engs::SYMS;
use crate::fw::*;
use crate::p_names::h;
use crate::sess::check_wf;
use adapton::engine::*;
use adapton::macros::ProgPt;
use adapton::reflect as rf;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum To {
    In(usize),
    Node(usize),
}
#[derive(Clone, Copy, Debug, Hash)]
struct Dep {
    to: To,
    /// Observe only the value modulo this.
    part: Option<i64>,
}
#[derive(Clone, Debug, Hash)]
struct Node {
    deps: Vec<Dep>,
    op: usize,
    /// Observes nothing else if the first thing is odd.
    stops: bool,
}
impl Node {
    fn enough(&self, k: usize, v: i64) -> bool {
        self.stops && k == 0 && v.rem_euclid(2) == 1
    }
}
struct W {
    nodes: Vec<Node>,
    inputs: RefCell<Vec<Art<i64>>>,
    arts: RefCell<Vec<Art<i64>>>,
    runs: RefCell<Vec<u32>>,
    /// Thunks allocate what they demand.
    inner: bool,
    names: usize,
    /// Cells that thunks allocate for what they found.
    outs: RefCell<std::collections::HashMap<usize, Art<i64>>>,
    errs: RefCell<Vec<String>>,
}
/// What the cell of a thunk that found `v` holds.
fn out(v: i64) -> i64 {
    v.rem_euclid(3)
}
fn combine(op: usize, acc: i64, v: i64) -> i64 {
    match op {
        0 => (acc * 31 + v).rem_euclid(10_007),
        1 => acc.max(v),
        2 => acc.min(v),
        3 => (acc + v).rem_euclid(7),
        _ => acc.wrapping_mul(1_000_003).wrapping_add(v),
    }
}
fn part(v: i64, p: Option<i64>) -> i64 {
    p.map_or(v, |p| v.rem_euclid(p))
}
fn name(form: usize, what: &'static str, i: usize) -> Name {
    match form {
        0 => name_pair(name_of_str(what), name_of_usize(i)),
        1 => name_of_string(format!("{}{}", what, i)),
        2 => name_of_isize(match what {
            "in" => -1 - i as isize,
            "out" => 1_000_000 + i as isize,
            _ => i as isize,
        }),
        _ => {
            // A path in the tree of forks of one name.
            let mut n = name_of_str(what);
            let mut k = i + 1;
            while k > 0 {
                let (l, r) = name_fork(n);
                n = if k % 2 == 0 { l } else { r };
                k /= 2
            }
            n
        }
    }
}
fn mk(j: usize, w: &Rc<W>) -> Art<i64> {
    thunk(
        NameChoice::Nominal(name(w.names, "node", j)),
        ProgPt { symbol: SYMS[j % 3] },
        Rc::new(Box::new(|j: usize, w: Rc<W>| {
            w.runs.borrow_mut()[j] += 1;
            let n = w.nodes[j].clone();
            let mut acc = 0;
            for (k, d) in n.deps.iter().enumerate() {
                let place = k;
                let a = match d.to {
                    To::In(i) => w.inputs.borrow()[i].clone(),
                    To::Node(k) if w.inner => mk(k, &w),
                    To::Node(k) => w.arts.borrow()[k].clone(),
                };
                let v = match d.part {
                    None => force(&a),
                    Some(2) => force_map(&a, |_, v| v.rem_euclid(2)),
                    Some(5) => force_map(&a, |_, v| v.rem_euclid(5)),
                    Some(p) => force_map(&a, move |_, v| v.rem_euclid(p)),
                };
                if let (true, To::Node(k)) = (w.inner && j % 2 == 0, d.to) {
                    let a = w.outs.borrow().get(&k).cloned();
                    match a.map(|a| force(&a)) {
                        Some(o) if k % 3 == 0 => {
                            if o != out(force(&mk(k, &w))) {
                                w.errs.borrow_mut().push(format!("thunk {} finds {} in the cell of thunk {}", j, o, k))
                            }
                        }
                        None if k % 3 != 0 => (),
                        _ => w.errs.borrow_mut().push(format!("thunk {} has no cell, or an odd one", k)),
                    }
                }
                acc = combine(n.op, acc, v);
                if n.enough(place, v) {
                    break;
                }
            }
            if w.inner && j % 3 == 0 {
                let a = cell(name(w.names, "out", j), out(acc));
                w.outs.borrow_mut().insert(j, a);
            }
            acc
        })),
        j,
        w.clone(),
    )
}

/// What must have happened so far.
struct Model<'a> {
    w: &'a W,
    inputs: Vec<i64>,
    last: Vec<Option<(Vec<i64>, i64)>>,
    fresh: Vec<bool>,
    runs: Vec<u32>,
    reused: u64,
    cutoffs: u64,
}
impl<'a> Model<'a> {
    fn demand(&mut self, j: usize) -> i64 {
        if self.fresh[j] {
            return self.last[j].as_ref().unwrap().1;
        }
        let w = self.w;
        let n = &w.nodes[j];
        let mut seen: Vec<i64> = vec![];
        for (k, d) in n.deps.iter().enumerate() {
            let v = match d.to {
                To::In(i) => part(self.inputs[i], d.part),
                // (The result of a thunk is observed in full.)
                To::Node(k) => self.demand(k),
            };
            seen.push(v);
            if n.enough(k, part(v, d.part)) {
                break;
            }
        }
        self.fresh[j] = true;
        match &self.last[j] {
            Some((s, v)) if *s == seen => {
                self.reused += 1;
                return *v;
            }
            _ => (),
        }
        self.runs[j] += 1;
        let v = seen.iter().zip(&n.deps).fold(0, |a, (v, d)| combine(n.op, a, part(*v, d.part)));
        if self.last[j].as_ref().map_or(false, |l| l.1 == v) {
            self.cutoffs += 1
        }
        self.last[j] = Some((seen, v));
        v
    }
}

pub struct What {
    /// Compare the runs of every thunk with the model.
    pub runs: bool,
    /// Check the graph.
    pub graph: bool,
    pub inner: bool,
    pub parts: bool,
    pub max: usize,
    /// With the engine's own checker, which looks at the whole graph each
    /// time.
    pub check: bool,
    /// Record a trace of each operation.
    pub trace: bool,
}

/// Records a trace of an operation, and compares it with what happened.
fn traced<T>(on: bool, edit: bool, w: &W, f: &mut dyn FnMut() -> T) -> Result<T, String> {
    use rf::trace::{AllocCase, Effect, EffectEdge, ForceCase, Trace};
    if !on {
        return Ok(f());
    }
    let total = || w.runs.borrow().iter().map(|r| *r as usize).sum::<usize>();
    let (before, ran) = (rf::dcg_reflect_now().unwrap(), total());
    rf::dcg_reflect_begin();
    let r = f();
    let tr = rf::dcg_reflect_end();
    let (after, ran) = (rf::dcg_reflect_now().unwrap(), total() - ran);
    let (mut evals, mut fresh, mut told) = (0, 0, vec![]);
    let mut todo: Vec<&Trace> = tr.iter().collect();
    while let Some(t) = todo.pop() {
        match (&t.effect, &t.edge) {
            (Effect::CleanEval, _) | (Effect::Force(ForceCase::CompCacheMiss), _) => evals += 1,
            (Effect::Alloc(AllocCase::LocFresh, _), _) => fresh += 1,
            (Effect::Dirty, EffectEdge::Fwd(e)) => match &e.loc {
                Some(l) => told.push((rf::string_of_loc(l), rf::string_of_loc(&e.succ.loc), format!("{:?}", e.succ.effect))),
                None => return Err("an edge without a source was traced as dirtied".into()),
            },
            _ => (),
        }
        todo.extend(t.extent.iter())
    }
    ensure!(evals == ran, "{} evaluations were traced, {} happened", evals, ran);
    let new = after.table.len() - before.table.len();
    ensure!(fresh == new, "{} fresh allocations were traced, {} happened", fresh, new);
    if edit {
        let edges = |g: &rf::DCG| -> std::collections::HashSet<(String, String, String)> {
            let all = g.table.iter().filter_map(|(l, n)| match n {
                rf::Node::Comp(n) => Some((l, n)),
                _ => None,
            });
            all.flat_map(|(l, n)| {
                n.succs.iter().filter(|s| s.dirty).map(move |s| (rf::string_of_loc(l), rf::string_of_loc(&s.loc), format!("{:?}", s.effect)))
            })
            .collect()
        };
        let was = edges(&before);
        let mut want: Vec<_> = edges(&after).into_iter().filter(|e| !was.contains(e)).collect();
        told.sort();
        // Several edges between the same nodes are one here.
        told.dedup();
        want.sort();
        ensure!(told == want, "{} edges are newly dirty, {} were traced as dirtied: {:?} against {:?}", want.len(), told.len(), want, told);
    }
    crate::sess::check_counts(&tr)?;
    Ok(r)
}

pub fn scale_case(t: &mut Tape, c: &Case, cx: &mut Cx, what: What) -> R {
    manage::init_dcg();
    crate::sess::flags(|f| f.check_dcg_is_wf = what.check);
    let shape = t.below(8);
    let bits = 1 + t.below(8);
    let n = (1usize << bits) + t.below(1 << bits);
    let mut n = n.min(what.max);
    // Rarely, one much larger.
    let huge = t.below(30) == 29 && !what.check && !what.trace;
    if huge {
        n = what.max * (3 + t.below(6))
    }
    let seed = t.raw();
    let rnd = |a: usize, b: usize, m: usize| (h(&(seed, a, b)) % m.max(1) as u64) as usize;
    let nin = [1, 2, 1 + n / 8, n][t.below(4)].max(1);
    let parts = what.parts && t.chance(1, 2);
    let dynamic = t.chance(1, 2);
    let opm = t.below(6);
    let dep = |j: usize, k: usize, to: To| Dep { to, part: if parts { [None, Some(2), Some(5), Some(3)][rnd(j, 1000 + k, 4)] } else { None } };
    let mut nodes: Vec<Node> = vec![];
    let width = 1 + rnd(9, 9, 12);
    for j in 0..n {
        let mut deps = vec![];
        let inp = |k: usize| To::In(rnd(j, k, nin));
        match shape {
            // A chain, every thunk with an input, or only the first.
            0 | 1 => {
                if j > 0 {
                    deps.push(To::Node(j - 1))
                }
                if j == 0 || shape == 1 {
                    deps.push(inp(1))
                }
            }
            // One thunk observes all others.
            2 => {
                if j + 1 < n {
                    deps.push(inp(1))
                } else {
                    deps.extend((0..j).map(To::Node));
                    deps.push(inp(1))
                }
            }
            // All observe one.
            3 => deps.push(if j == 0 { inp(1) } else { To::Node(0) }),
            // Layers.
            4 => {
                let (l, _) = (j / width, j % width);
                for k in 0..1 + rnd(j, 2, 4) {
                    deps.push(if l == 0 { inp(k) } else { To::Node((l - 1) * width + rnd(j, 10 + k, width)) })
                }
                if rnd(j, 3, 4) == 0 {
                    deps.push(inp(77))
                }
            }
            // A tree.
            5 => {
                if 2 * j + 2 < n {
                    // (Numbered from the root.)
                    deps.push(To::Node(2 * j + 1));
                    deps.push(To::Node(2 * j + 2))
                } else {
                    deps.push(inp(1))
                }
            }
            // One thunk observes cells many times, and in many ways.
            7 => {
                let k = if j + 1 < n { 1 } else { n };
                deps.extend((1..=k).map(inp))
            }
            // Anything below, several times, too.
            _ => {
                for k in 0..rnd(j, 2, 6) {
                    deps.push(if j == 0 || rnd(j, 20 + k, 4) == 0 { inp(k) } else { To::Node(j - 1 - rnd(j, 30 + k, j.min(9))) })
                }
            }
        }
        let op = if opm < 5 { opm } else { rnd(j, 5, 5) };
        let stops = dynamic && (j + 1 == n || rnd(j, 6, 3) == 0);
        nodes.push(Node { deps: deps.into_iter().enumerate().map(|(k, d)| dep(j, k, d)).collect(), op, stops });
    }
    let root = if shape == 5 { 0 } else { n - 1 };
    let names = t.below(4);
    let inner = what.inner && t.chance(1, 2);
    let iv: Vec<i64> = (0..nin).map(|i| rnd(i, 999, 20) as i64).collect();
    let w = Rc::new(W { nodes, inputs: Default::default(), arts: Default::default(), runs: RefCell::new(vec![0; n]), inner, names, outs: Default::default(), errs: Default::default() });
    *w.inputs.borrow_mut() = (0..nin).map(|i| cell(name(names, "in", i), iv[i])).collect();
    // With inner allocation, outside only the roots exist, at first.
    let ext: Vec<usize> = if inner { vec![root] } else { (0..n).collect() };
    let arts: Vec<Art<i64>> = (0..n).map(|j| if ext.contains(&j) { mk(j, &w) } else { w.inputs.borrow()[0].clone() }).collect();
    *w.arts.borrow_mut() = arts;
    cx.digest(&(shape, n, nin, seed, opm, names, inner, parts, dynamic));
    cx.show(|| format!("shape {}, {} thunks, {} inputs, seed {}, ops {}, names {}, inner {}, parts {}, dynamic {}", shape, n, nin, seed, opm, names, inner, parts, dynamic));
    let mut m = Model { w: &w, inputs: iv, last: vec![None; n], fresh: vec![false; n], runs: vec![0; n], reused: 0, cutoffs: 0 };
    let (mut edits, mut changed) = (0u64, 0u64);
    let mut prev: Option<i64> = None;
    let demand = |m: &mut Model, j: usize, say: &str| -> Result<i64, String> {
        let a = if inner { traced(what.trace, true, &w, &mut || mk(j, &w))? } else { w.arts.borrow()[j].clone() };
        let want = m.demand(j);
        let got = traced(what.trace, false, &w, &mut || force(&a)).map_err(|e| format!("{}: on demand of thunk {}: {}", say, j, e))?;
        ensure!(got == want, "{}: thunk {} yields {} instead of {}", say, j, got, want);
        if let Some(e) = w.errs.borrow().first() {
            return Err(format!("{}: {}", say, e));
        }
        if what.runs {
            let r = w.runs.borrow();
            for k in 0..n {
                ensure!(r[k] == m.runs[k], "{}: on demand of thunk {}, thunk {} has run {} times instead of {}", say, j, k, r[k], m.runs[k])
            }
        }
        Ok(got)
    };
    demand(&mut m, root, "at first")?;
    for (step, op) in c.b.iter().enumerate() {
        let mut t = Tape::new(op);
        let k = t.below(8);
        let rep = [1, 1, 2, 5, 17, 40][t.below(if huge || what.check || what.trace { 3 } else { 6 })];
        cx.digest(&(k, rep, op[2], op[3]));
        cx.show(|| format!("{} x{} ({})", ["set, demand each time", "set all, then demand", "set and undo", "demand any", "same value", "allocate the cell again", "sets", "allocate thunks again"][k], rep, op[2]));
        for r in 0..rep {
            let i = rnd(op[2] as usize, r, nin);
            let v = rnd(op[3] as usize, r, 9) as i64;
            let mut put = |m: &mut Model, i: usize, v: i64| -> R {
                let a = w.inputs.borrow()[i].clone();
                traced(what.trace, true, &w, &mut || set(&a, v)).map_err(|e| format!("step {}.{}: on setting input {}: {}", step, r, i, e))?;
                if m.inputs[i] != v {
                    edits += 1
                }
                m.inputs[i] = v;
                m.fresh.iter_mut().for_each(|f| *f = false);
                Ok(())
            };
            match k {
                0 => {
                    put(&mut m, i, v)?;
                    if !inner || root == n - 1 {
                        let x = demand(&mut m, root, &format!("step {}.{}", step, r))?;
                        changed += (prev.map_or(false, |p| p != x)) as u64;
                        prev = Some(x)
                    }
                }
                1 | 6 => put(&mut m, i, v)?,
                2 => {
                    let was = m.inputs[i];
                    put(&mut m, i, v + 1)?;
                    put(&mut m, i, was)?
                }
                3 => {
                    let j = if inner { root } else { rnd(op[2] as usize, r, n) };
                    demand(&mut m, j, &format!("step {}.{}", step, r))?;
                }
                4 => {
                    let was = m.inputs[i];
                    put(&mut m, i, was)?
                }
                5 => {
                    let a = traced(what.trace, true, &w, &mut || cell(name(names, "in", i), v))?;
                    ensure!(a == w.inputs.borrow()[i], "step {}.{}: a cell allocated again is another", step, r);
                    edits += 1;
                    m.inputs[i] = v;
                    m.fresh.iter_mut().for_each(|f| *f = false)
                }
                _ => {
                    let j = if inner { root } else { rnd(op[2] as usize, r, n) };
                    let a = traced(what.trace, true, &w, &mut || mk(j, &w))?;
                    ensure!(a == w.arts.borrow()[j], "step {}.{}: a thunk allocated again is another", step, r);
                }
            }
        }
        if k == 1 {
            demand(&mut m, root, &format!("step {}", step))?;
        }
    }
    let x = demand(&mut m, root, "at the end")?;
    changed += (prev.map_or(false, |p| p != x)) as u64;
    if !inner {
        for j in 0..n {
            demand(&mut m, j, "at the end")?;
        }
    }
    for (k, a) in w.outs.borrow().iter() {
        // (Not all thunks were demanded again.)
        if m.fresh[*k] {
            let (o, want) = (force(a), out(m.last[*k].as_ref().unwrap().1));
            ensure!(o == want, "at the end: the cell of thunk {} holds {} instead of {}", k, o, want)
        }
    }
    if what.graph {
        let g = rf::dcg_reflect_now().unwrap();
        check_wf(&g)?;
        cx.label_if(g.table.len() > 100, "a graph of more than 100 nodes");
    }
    cx.label("a large graph or a long history");
    cx.label_if(n > 100, "more than 100 thunks");
    cx.label_if(n > 1000, "more than 1000 thunks");
    cx.label_if(edits > 50, "more than 50 edits");
    cx.label_if(m.cutoffs > 0, "a re-evaluation gave an equal result");
    cx.nontrivial = changed > 0 && m.reused > 0;
    Ok(())
}
