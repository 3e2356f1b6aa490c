//! C12: cyclic programs against a depth-first reference evaluator.

use crate::engs::SYMS;
use crate::fw::*;
use crate::p_core;
use crate::p_names::h;
use crate::sess::{flags, OPTS, Opts, WS};
use adapton::engine::*;
use adapton::macros::ProgPt;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Clone, Hash, Debug)]
struct Site {
    to: usize,
    /// The value for a demand that closes a cycle; without, the demand
    /// must be one that no input makes cyclic.
    cycle: Option<i64>,
    /// Only if this input is positive.
    when: Option<usize>,
    /// Allocate the thunk again here, rather than using the one allocated
    /// outside.
    realloc: bool,
    /// Demand through `force_map` (plain demands only).
    map: bool,
}
#[derive(Clone, Hash, Debug)]
struct Node {
    sites: Vec<Site>,
    op: usize,
    /// Reads this input, after the demands.
    reads: Option<usize>,
    /// Namespace and name: two thunks share one at most.
    place: (usize, usize),
    /// Observes the global input after so many demands.
    late: usize,
}
fn combine(op: usize, acc: i64, v: i64) -> i64 {
    match op {
        0 => (acc * 31 + v).rem_euclid(10_007),
        1 => acc.max(v),
        2 => acc.min(v),
        _ => acc + (v > 3) as i64,
    }
}
const NEVER: i64 = -999;

struct W {
    nodes: Vec<Node>,
    global: Art<i64>,
    inputs: Vec<Art<i64>>,
    thunks: RefCell<Vec<Art<i64>>>,
    runs: Cell<u64>,
    cut: Cell<u64>,
}
fn mk(j: usize, w: &Rc<W>) -> Art<i64> {
    let f = || {
        thunk(
            NameChoice::Nominal(name_of_usize(w.nodes[j].place.1)),
            ProgPt { symbol: SYMS[j % 32] },
            Rc::new(Box::new(|j: usize, w: Rc<W>| {
                w.runs.set(w.runs.get() + 1);
                let n = w.nodes[j].clone();
                let mut acc = 0;
                for (k, s) in n.sites.iter().enumerate() {
                    if k == n.late {
                        acc += force(&w.global)
                    }
                    if s.when.map_or(false, |i| force(&w.inputs[i]) <= 0) {
                        continue;
                    }
                    let a = if s.realloc { mk(s.to, &w) } else { w.thunks.borrow()[s.to].clone() };
                    let v = match s.cycle {
                        Some(c) => force_cycle(&a, Some(c)),
                        None if s.map => force_map(&a, |_, v| v),
                        None => force(&a),
                    };
                    acc = combine(n.op, acc, v)
                }
                if n.late >= n.sites.len() {
                    acc += force(&w.global)
                }
                if let Some(i) = n.reads {
                    acc = combine(n.op, acc, force(&w.inputs[i]))
                }
                acc
            })),
            j,
            w.clone(),
        )
    };
    match w.nodes[j].place.0 {
        0 => f(),
        1 => ns(name_of_str("sub"), f),
        2 => ns(name_of_str("sub"), || ns(name_of_str("sub"), f)),
        _ => ns(name_of_str("other"), f),
    }
}

/// Depth-first: a demand of a running thunk gives the cycle value.
struct Ref<'a> {
    w: &'a W,
    global: i64,
    inputs: &'a [i64],
    cache: Vec<Option<i64>>,
    running: Vec<bool>,
    runs: u64,
    cut: u64,
}
impl<'a> Ref<'a> {
    fn eval(&mut self, j: usize) -> i64 {
        if let Some(v) = self.cache[j] {
            return v;
        }
        self.runs += 1;
        self.running[j] = true;
        let n = self.w.nodes[j].clone();
        let mut acc = 0;
        for (k, s) in n.sites.iter().enumerate() {
            if k == n.late {
                acc += self.global
            }
            if s.when.map_or(false, |i| self.inputs[i] <= 0) {
                continue;
            }
            let v = if self.running[s.to] {
                self.cut += 1;
                s.cycle.expect("harness: plain demand in a cycle")
            } else {
                self.eval(s.to)
            };
            acc = combine(n.op, acc, v)
        }
        if n.late >= n.sites.len() {
            acc += self.global
        }
        if let Some(i) = n.reads {
            acc = combine(n.op, acc, self.inputs[i])
        }
        self.running[j] = false;
        self.cache[j] = Some(acc);
        acc
    }
}

fn c12(c: &Case, cx: &mut Cx) -> R {
    let mut t = Tape::new(&c.a);
    if t.chance(1, 5) {
        // No cycles: no demand ever sees its cycle value.
        cx.label("a program without cycles");
        let rest = Case { a: c.a[1..].to_vec(), b: c.b.clone() };
        p_core::session(&rest, cx, |t| p_core::mix(p_core::ALLOC, t, &[(3, p_core::RICH)]), Opts { cyc: true, ..OPTS }, WS)?;
        return Ok(());
    }
    cyclic(&mut t, &c.b, cx, &|| manage::init_dcg(), &|| (), true).map(|_| ())
}

/// Runs a cyclic program and its history; gives the results of all
/// demands.  `init` makes the engine, `thunks` comes between the
/// allocation of the inputs and everything else.
pub fn cyclic(t: &mut Tape, b: &[[u16; 4]], cx: &mut Cx, init: &dyn Fn() -> Engine, thunks: &dyn Fn(), verify: bool) -> Result<Vec<i64>, String> {
    init();
    let mut log = vec![];
    // One in eight: a long cycle, each thunk demanding the next.
    let ring = t.chance(1, 8);
    // One in eighty of these: a very long one.
    let n = if ring && t.big(80) { 100 + t.below(200) } else if ring { 2 + t.below(40) } else { 1 + t.below(7) };
    let nin = 1 + t.below(2);
    let realloc = t.below(3);
    let late = t.chance(1, 2);
    let mut nodes: Vec<Node> = (0..n)
        .map(|j| Node {
            sites: (0..if ring { 1 + t.weighted(&[8, 1]) } else { t.weighted(&[1, 4, 4, 2]) })
                .map(|k| Site {
                    to: if ring && k == 0 { (j + 1) % n } else { t.below(n) },
                    cycle: Some(t.small(4)),
                    when: if t.chance(1, 3) { Some(t.below(nin)) } else { None },
                    realloc: realloc == 2 || (realloc == 1 && t.chance(1, 2)),
                    map: t.chance(1, 3),
                })
                .collect(),
            op: t.below(4),
            reads: if t.chance(1, 3) { Some(t.below(nin)) } else { None },
            place: (0, j),
            late: if late { t.below(4) } else { 0 },
        })
        .collect();
    // Which demands can close a cycle.
    let mut reach = vec![vec![false; n]; n];
    for (i, x) in nodes.iter().enumerate() {
        for s in &x.sites {
            reach[i][s.to] = true
        }
    }
    if ring {
        reach = vec![vec![true; n]; n]
    }
    for k in 0..if ring { 0 } else { n } {
        for i in 0..n {
            for j in 0..n {
                if reach[i][k] && reach[k][j] {
                    reach[i][j] = true
                }
            }
        }
    }
    for (i, x) in nodes.iter_mut().enumerate() {
        for s in &mut x.sites {
            if !(s.to == i || reach[s.to][i]) {
                s.cycle = if t.chance(1, 2) { None } else { Some(NEVER) }
            }
        }
    }
    // A thunk outside of the root namespace cannot be re-allocated from there,
    // so there are some only without re-allocation.
    if realloc == 0 {
        let m = 1 + t.below(4);
        for (j, x) in nodes.iter_mut().enumerate() {
            x.place = (j % m, j / m)
        }
        cx.label_if(m > 1 && n > m, "thunks of one name in several namespaces");
    }
    let mut inp: Vec<i64> = (0..nin).map(|_| t.small(1)).collect();
    cx.show(|| format!("inputs {:?}, thunks {:?}", inp, nodes));
    cx.digest(&(&inp, &nodes));
    let mut version = 0;
    let w = Rc::new(W {
        nodes,
        global: cell(name_of_str("global"), version),
        inputs: (0..nin).map(|i| cell(name_of_string(format!("in{}", i)), inp[i])).collect(),
        thunks: RefCell::new(vec![]),
        runs: Cell::new(0),
        cut: Cell::new(0),
    });
    thunks();
    for j in 0..n {
        let a = mk(j, &w);
        w.thunks.borrow_mut().push(a)
    }
    let mut cache = vec![None; n];
    let mut exact = true;
    let (mut cuts, mut edits, mut checked, mut loose) = (0, 0, 0, 0);
    let mut ops: Vec<[u16; 4]> = b.to_vec();
    // At the end, once more, everything from the beginning.
    ops.push([u16::MAX; 4]);
    for (step, op) in ops.iter().enumerate() {
        let mut t = Tape::new(op);
        match t.weighted(&[5, 2, 2]) {
            0 => {
                let j = t.below(n);
                let top = if t.chance(1, 2) { Some(NEVER) } else { None };
                cx.digest(&(0, j));
                cx.show(|| format!("demand {}", j));
                let before = w.runs.get();
                let a = w.thunks.borrow()[j].clone();
                let got = force_cycle(&a, top);
                let ran = w.runs.get() - before;
                log.push(got);
                if !verify {
                } else if exact {
                    let mut r = Ref { w: &w, global: version, inputs: &inp, cache: cache.clone(), running: vec![false; n], runs: 0, cut: 0 };
                    let want = r.eval(j);
                    cuts += r.cut;
                    let runs = r.runs;
                    cache = r.cache;
                    ensure!(got == want, "step {}: thunk {} gives {} instead of {}", step, j, got, want);
                    ensure!(ran == runs, "step {}: demanding thunk {} ran {} computations instead of {}", step, j, ran, runs);
                    checked += 1;
                } else {
                    // What was computed amid a cycle before a partial edit
                    // may stay; only termination is promised.
                    loose += 1;
                    if (0..n).all(|k| !(k == j || reach[j][k]) || !reach[k][k]) {
                        // No cycle in reach: as always.
                        let mut r = Ref { w: &w, global: version, inputs: &inp, cache: vec![None; n], running: vec![false; n], runs: 0, cut: 0 };
                        let want = r.eval(j);
                        ensure!(got == want, "step {}: thunk {}, which reaches no cycle, gives {} instead of {}", step, j, got, want);
                        cx.label("beside a cycle, after a partial edit");
                    }
                    let again = force(&a);
                    ensure!(again == got, "step {}: thunk {} gives {} and then {}", step, j, got, again);
                }
            }
            1 => {
                let i = t.below(nin);
                let v = t.small(1);
                cx.digest(&(1, i, v));
                cx.show(|| format!("input {} := {}", i, v));
                if inp[i] != v && cache.iter().any(|c| c.is_some()) {
                    exact = false
                }
                set(&w.inputs[i], v);
                inp[i] = v;
                edits += 1;
            }
            _ => {
                version += 1 + (h(op) % 3) as i64;
                cx.digest(&(2, version));
                cx.show(|| format!("global := {}", version));
                set(&w.global, version);
                cache = vec![None; n];
                exact = true;
                edits += 1;
            }
        }
    }
    for j in 0..n {
        let mut r = Ref { w: &w, global: version, inputs: &inp, cache: cache.clone(), running: vec![false; n], runs: 0, cut: 0 };
        let want = r.eval(j);
        cache = r.cache.clone();
        cuts += r.cut;
        let got = force_cycle(&w.thunks.borrow()[j].clone(), Some(NEVER));
        log.push(got);
        ensure!(!verify || got == want, "at the end, thunk {} gives {} instead of {}", j, got, want);
    }
    cx.label_if(cuts > 0, "a cycle was cut");
    cx.label_if(cuts > 0 && edits > 0, "a cyclic program was edited");
    cx.label_if(late && cuts > 0 && edits > 0, "what all observe is observed between or after demands");
    cx.label_if(loose > 0, "demands after partial edits");
    cx.label_if(ring && n > 10 && cuts > 0, "a cycle of more than ten thunks");
    cx.label_if(ring && n >= 100 && cuts > 0, "a cycle of a hundred thunks or more");
    cx.label_if(realloc > 0, "thunks allocated again in the cycle");
    cx.nontrivial = cuts > 0 && (checked > 0 || !verify && edits > 0);
    Ok(log)
}

/// C23: One history, under the default options and under others.
pub fn options(c: &Case, cx: &mut Cx) -> R {
    let mut t = Tape::new(&c.a);
    let k = t.raw();
    let want = cyclic(&mut Tape::new(&c.a[1..]), &c.b, cx, &|| manage::init_dcg(), &|| (), false)?;
    for bits in [scale(k, 16), 15 - scale(k, 16)] {
        let (no_purity, structural, check, record) = (bits & 1 == 1, bits & 2 == 2, bits & 4 == 4, bits & 8 == 8);
        cx.show(|| format!("again with no_purity={} structural={} check={} record={}", no_purity, structural, check, record));
        let init = || {
            let e = manage::init_dcg();
            flags(|f| {
                f.use_purity_optimization = !no_purity;
                f.check_dcg_is_wf = check;
            });
            if record {
                adapton::reflect::dcg_reflect_begin()
            }
            e
        };
        // (The inputs must keep their names.)
        let thunks = || flags(|f| f.ignore_nominal_use_structural = structural);
        let got = cyclic(&mut Tape::new(&c.a[1..]), &c.b, cx, &init, &thunks, false)?;
        if record {
            adapton::reflect::dcg_reflect_end();
        }
        ensure!(
            got == want,
            "with no_purity={} structural={} check={} record={} a cyclic program yields {:?} instead of {:?}",
            no_purity, structural, check, record, got, want
        )
    }
    cx.label("a cyclic program under options");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C12",
        a: (20, 160),
        b: (2, 16),
        quick: 300_000,
        thorough: 5_000_000,
        run: c12,
        rule: "Random graphs of up to seven thunks (or a ring of up to 300 with extra demands) demanding each other with cycle values (static or re-allocated, some demands conditional), entered from several thunks under edits; one case in five is an acyclic program whose demands all carry a cycle value; non-trivial: a cycle was cut and the result checked (or the acyclic program's result changed)",
        assumptions: &["after an edit that not every cached computation of the cycle observed, only termination and repeatability are promised"],
    }]
}
