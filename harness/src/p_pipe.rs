//! C18: merge sorts, and C19: pipelines of passes, over lists and trees
//! whose articulated parts are edited.

use crate::fw::*;
use crate::p_list::*;
use crate::p_tree::{gen_tree, walk, MT};
use adapton::catalog::collections::*;
use adapton::engine::*;
use adapton::macros::ProgPt;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

thread_local!(static CALLS: Cell<u64> = Cell::new(0));
fn called() {
    CALLS.with(|c| c.set(c.get() + 1))
}

// ------------------------------------------------------- edited lists

#[derive(Clone, Debug)]
pub struct Node<X> {
    pub items: Seq<X>,
    /// The name of its cell, and whether links carry it as well.
    pub name: Name,
    pub shown: bool,
    pub next: Option<usize>,
}

/// A list cut into cells.  Links only lead to nodes later in `order`.
#[derive(Clone, Debug)]
pub struct Edited<X: El> {
    pub nodes: Vec<Node<X>>,
    pub order: Vec<usize>,
    fresh: usize,
}

impl<X: El> Edited<X> {
    pub fn new(t: &mut Tape, max: usize) -> Self {
        let n = 1 + t.below(max);
        let mut e = Edited { nodes: vec![], order: (0..n).collect(), fresh: 1000 };
        for i in 0..n {
            let k = t.below(4);
            let items = (0..k).map(|_| e.item(t)).collect();
            e.nodes.push(Node { items, name: nm(i), shown: !t.chance(1, 6), next: if i + 1 < n { Some(i + 1) } else { None } })
        }
        e
    }
    fn item(&mut self, t: &mut Tape) -> NameElse<X> {
        if t.chance(1, 5) {
            self.fresh += 1;
            NameElse::Name(nm(self.fresh))
        } else {
            NameElse::Else(X::of(t.small(if t.long { 300 } else { 12 })))
        }
    }
    fn seq(&self) -> Seq<X> {
        let mut s = vec![];
        let mut at = Some(0);
        while let Some(i) = at {
            s.extend(self.nodes[i].items.iter().cloned());
            at = self.nodes[i].next;
            if let Some(j) = at {
                if self.nodes[j].shown {
                    s.push(NameElse::Name(self.nodes[j].name.clone()))
                }
            }
        }
        s
    }
    fn content(&self, i: usize, arts: &[Option<Art<List<X>>>]) -> List<X> {
        let n = &self.nodes[i];
        let mut l = match n.next {
            None => List::Nil,
            Some(j) => {
                let l = List::Art(arts[j].clone().expect("later node"));
                if self.nodes[j].shown {
                    List::Name(self.nodes[j].name.clone(), Box::new(l))
                } else {
                    l
                }
            }
        };
        for x in n.items.iter().rev() {
            l = match x {
                NameElse::Name(m) => List::Name(m.clone(), Box::new(l)),
                NameElse::Else(x) => List::Cons(x.clone(), Box::new(l)),
            }
        }
        l
    }
    /// Makes all cells, in whichever engine is in force.
    pub fn build(&self) -> Vec<Option<Art<List<X>>>> {
        let mut arts = vec![None; self.nodes.len()];
        for i in self.order.iter().rev() {
            let l = self.content(*i, &arts);
            let n = self.nodes[*i].name.clone();
            arts[*i] = Some(ns(name_of_str("input"), || cell(n, l)));
        }
        arts
    }
    fn pos(&self, i: usize) -> usize {
        self.order.iter().position(|j| *j == i).unwrap()
    }
    /// One random edit; tells which nodes changed.
    pub fn edit(&mut self, t: &mut Tape) -> (Vec<usize>, String) {
        let live = {
            let mut v = vec![];
            let mut at = Some(0);
            while let Some(i) = at {
                v.push(i);
                at = self.nodes[i].next;
            }
            v
        };
        // Mostly parts that are in the list.
        let i = if t.chance(1, 6) { t.below(self.nodes.len()) } else { live[t.below(live.len())] };
        let k = t.weighted(&[4, 4, 4, 4, 3, 1, 2]);
        let len = self.nodes[i].items.len();
        match k {
            0 if len > 0 => {
                let p = t.below(len);
                let x = self.item(t);
                self.nodes[i].items[p] = x.clone();
                (vec![i], format!("item {} of cell {} becomes {:?}", p, i, x))
            }
            0 | 1 => {
                let p = t.below(len + 1);
                let x = self.item(t);
                self.nodes[i].items.insert(p, x.clone());
                (vec![i], format!("{:?} inserted at {} in cell {}", x, p, i))
            }
            2 if len > 0 => {
                let p = t.below(len);
                self.nodes[i].items.remove(p);
                (vec![i], format!("item {} of cell {} removed", p, i))
            }
            2 | 3 => {
                // Link elsewhere: removes or brings back segments.
                let later = self.order[self.pos(i) + 1..].to_vec();
                let j = t.below(later.len() + 1);
                let next = later.get(j).cloned();
                self.nodes[i].next = next;
                (vec![i], format!("cell {} is followed by {:?}", i, next))
            }
            4 => {
                // A new segment after this one.
                let j = self.nodes.len();
                let n = t.below(3);
                let items: Seq<X> = (0..n).map(|_| self.item(t)).collect();
                let said = format!("new cell {} {:?} after cell {}", j, items, i);
                let next = self.nodes[i].next;
                self.nodes.push(Node { items, name: nm(j), shown: !t.chance(1, 6), next });
                let p = self.pos(i);
                self.order.insert(p + 1, j);
                self.nodes[i].next = Some(j);
                (vec![j, i], said)
            }
            5 => (vec![i], format!("cell {} written again", i)),
            _ => {
                // All of a segment.
                let n = t.below(4);
                let items: Seq<X> = (0..n).map(|_| self.item(t)).collect();
                self.nodes[i].items = items.clone();
                (vec![i], format!("cell {} becomes {:?}", i, items))
            }
        }
    }
    /// Brings the cells up to date.
    pub fn apply(&self, t: &mut Tape, changed: &[usize], arts: &mut Vec<Option<Art<List<X>>>>) {
        arts.resize(self.nodes.len(), None);
        for i in changed {
            let l = self.content(*i, arts);
            let again = t.chance(1, 4);
            match &arts[*i] {
                Some(a) if !again => set(a, l),
                _ => {
                    let n = self.nodes[*i].name.clone();
                    arts[*i] = Some(ns(name_of_str("input"), || cell(n, l)));
                }
            }
        }
    }
}

// -------------------------------------------------------------- passes

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
enum Pass {
    Map(usize, usize),
    Filter(usize, usize),
    Reverse,
    Tree(Dir2, Dir2),
    TreeFilterList(Dir2, usize),
    TreeFilter(Dir2, usize),
    Prune(Dir2),
    Copy(Dir2),
    Sort(Dir2, usize, bool, bool),
}

fn pass(t: &mut Tape, sort: bool) -> Pass {
    let d = |t: &mut Tape| if t.chance(1, 2) { Dir2::Right } else { Dir2::Left };
    match if sort { 8 } else { t.weighted(&[4, 3, 3, 3, 2, 2, 1, 1, 3]) } {
        0 => Pass::Map(t.below(3), t.below(4)),
        1 => Pass::Filter(t.below(2), t.below(4)),
        2 => Pass::Reverse,
        3 => Pass::Tree(d(t), d(t)),
        4 => Pass::TreeFilterList(d(t), t.below(4)),
        5 => Pass::TreeFilter(d(t), t.below(4)),
        6 => Pass::Prune(d(t)),
        7 => Pass::Copy(d(t)),
        _ => Pass::Sort(d(t), t.below(3), t.chance(1, 2), t.chance(1, 2)),
    }
}

fn region<T>(i: usize, s: &'static str, f: impl FnOnce() -> T) -> T {
    ns(name_pair(name_of_str("pass"), name_pair(name_of_usize(i), name_of_str(s))), f)
}

fn sorted<X: El>(k: usize, named: Option<usize>, t: Tree<X>) -> List<X> {
    let n = named.map(|i| name_pair(name_of_str("first"), name_of_usize(i)));
    match k {
        0 => mergesort_list_of_tree(t),
        1 => mergesort_list_of_tree2(t, n),
        _ => mergesort_list_of_tree3(t, n),
    }
}

fn run_pass<X: El>(i: usize, p: &Pass, l: List<X>) -> List<X> {
    let tree = |d: Dir2, l: List<X>| -> Tree<X> { region(i, "tree", || tree_of_list(d, l)) };
    let m = |k: usize| {
        let f = map_f::<X>(k);
        Rc::new(move |x: X| {
            called();
            f(&x)
        })
    };
    let q = |k: usize| {
        let f = pred_f::<X>(k);
        move |x: &X| {
            called();
            f(x)
        }
    };
    let list = |t: Tree<X>, d: Dir2| -> List<X> { region(i, "list", || list_of_tree(t, d)) };
    match p {
        Pass::Map(0, k) => region(i, "map", || list_map_eager(l, m(*k))),
        Pass::Map(1, k) => region(i, "map", || list_map_eager2(l, m(*k))),
        Pass::Map(_, k) => region(i, "map", || list_map_lazy(l, m(*k))),
        Pass::Filter(0, k) => region(i, "filter", || list_filter_eager(l, Rc::new(q(*k)))),
        Pass::Filter(_, k) => region(i, "filter", || list_filter_lazy(l, Rc::new(q(*k)))),
        Pass::Reverse => region(i, "reverse", || list_reverse(l, List::nil())),
        Pass::Tree(a, b) => list(tree(*a, l), *b),
        Pass::TreeFilterList(d, k) => {
            let t = tree(*d, l);
            region(i, "list", || filter_list_of_tree(t, Box::new(q(*k))))
        }
        Pass::TreeFilter(d, k) => {
            let t = tree(*d, l);
            list(region(i, "filter", || filter_tree_of_tree(t, Box::new(q(*k)))), *d)
        }
        Pass::Prune(d) => {
            let t = tree(*d, l);
            list(region(i, "prune", || prune_tree_of_tree::<_, _, _, Tree<X>>(t)), *d)
        }
        Pass::Copy(d) => {
            let t = tree(*d, l);
            list(region(i, "copy", || eager_tree_of_tree::<_, _, _, Tree<X>>(t)), *d)
        }
        Pass::Sort(d, k, named, prune) => {
            let mut t = tree(*d, l);
            if *prune {
                t = region(i, "prune", || prune_tree_of_tree(t))
            }
            region(i, "sort", || sorted(*k, if *named { Some(i) } else { None }, t))
        }
    }
}

fn model_pass<X: El>(p: &Pass, mut v: Vec<X>) -> Vec<X> {
    match p {
        Pass::Map(_, k) => {
            let f = map_f::<X>(*k);
            v.iter().map(|x| f(x)).collect()
        }
        Pass::Filter(_, k) | Pass::TreeFilterList(_, k) | Pass::TreeFilter(_, k) => {
            let f = pred_f::<X>(*k);
            v.retain(|x| f(x));
            if let Pass::TreeFilterList(Dir2::Right, _) = p {
                v.reverse()
            }
            v
        }
        Pass::Reverse => {
            v.reverse();
            v
        }
        Pass::Tree(a, b) => {
            if a != b {
                v.reverse()
            }
            v
        }
        Pass::Prune(_) | Pass::Copy(_) => v,
        Pass::Sort(..) => {
            v.sort();
            v
        }
    }
}

// ---------------------------------------------------------- C19 and C18

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    /// The passes are called again after each edit.
    Plain,
    /// One computation runs them all.
    Root,
    /// One computation runs them all and takes the result apart.
    Whole,
    /// One computation per pass, each demanding the previous.
    Stages,
}

struct Pipe<X: El> {
    mode: Mode,
    passes: Rc<Vec<Pass>>,
    input: Art<List<X>>,
    stages: Vec<Art<List<X>>>,
    whole: Option<Art<Seq<X>>>,
}

fn run_all<X: El>(passes: &[Pass], input: List<X>) -> List<X> {
    let mut l = input;
    for (i, p) in passes.iter().enumerate() {
        l = run_pass(i, p, l)
    }
    l
}

fn root_name(s: &'static str, i: usize) -> NameChoice {
    NameChoice::Nominal(name_pair(name_of_str(s), name_of_usize(i)))
}

impl<X: El> Pipe<X> {
    fn new(mode: Mode, passes: &Rc<Vec<Pass>>, input: Art<List<X>>) -> Self {
        let mut p = Pipe { mode, passes: passes.clone(), input: input.clone(), stages: vec![], whole: None };
        match mode {
            Mode::Plain => (),
            Mode::Root => p.stages.push(thunk(
                root_name("root", 0),
                ProgPt { symbol: "root" },
                Rc::new(Box::new(|l: Art<List<X>>, p: Rc<Vec<Pass>>| {
                    called();
                    run_all(&p, List::Art(l))
                })),
                input,
                passes.clone(),
            )),
            Mode::Whole => {
                p.whole = Some(thunk(
                    root_name("whole", 0),
                    ProgPt { symbol: "whole" },
                    Rc::new(Box::new(|l: Art<List<X>>, p: Rc<Vec<Pass>>| {
                        called();
                        whole(run_all(&p, List::Art(l)))
                    })),
                    input,
                    passes.clone(),
                ))
            }
            Mode::Stages => {
                let mut from = input;
                for i in 0..passes.len() {
                    from = thunk(
                        root_name("stage", i),
                        ProgPt { symbol: "stage" },
                        Rc::new(Box::new(|(i, l): (usize, Art<List<X>>), p: Rc<Vec<Pass>>| {
                            called();
                            run_pass(i, &p[i], List::Art(l))
                        })),
                        (i, from),
                        passes.clone(),
                    );
                    p.stages.push(from.clone());
                }
            }
        }
        p
    }
    fn demand(&self, limit: Option<usize>) -> Seq<X> {
        let l = match self.mode {
            Mode::Plain => run_all(&self.passes, List::Art(self.input.clone())),
            Mode::Whole => {
                let v = force(self.whole.as_ref().unwrap());
                return v[..limit.unwrap_or(v.len()).min(v.len())].to_vec();
            }
            _ => force(self.stages.last().unwrap()),
        };
        match limit {
            None => whole(l),
            n => vec_of_list(l, n),
        }
    }
}

fn executions(ts: &[adapton::reflect::trace::Trace]) -> u64 {
    use adapton::reflect::trace::{Effect, ForceCase};
    ts.iter()
        .map(|t| {
            let this = matches!(&t.effect, Effect::Force(ForceCase::CompCacheMiss) | Effect::CleanEval);
            this as u64 + executions(&t.extent)
        })
        .sum()
}

/// The result of the whole pipeline on the present input, from scratch,
/// under the cache-free engine (names included).
fn scratch<X: El>(e: &Edited<X>, passes: &[Pass]) -> Seq<X> {
    let old = manage::init_naive();
    let arts = e.build();
    let got = whole(run_all(passes, List::Art(arts[0].clone().unwrap())));
    manage::use_engine(old);
    got
}

/// Executions of computations, and calls of the functions given to the
/// passes, in a run of the pipeline under a fresh caching engine.
fn fresh_work<X: El>(mode: Mode, e: &Edited<X>, passes: &Rc<Vec<Pass>>) -> (u64, u64) {
    let old = manage::init_dcg();
    let arts = e.build();
    let pipe = Pipe::new(mode, passes, arts[0].clone().unwrap());
    let before = CALLS.with(|c| c.get());
    adapton::reflect::dcg_reflect_begin();
    pipe.demand(None);
    let n = executions(&adapton::reflect::dcg_reflect_end());
    let calls = CALLS.with(|c| c.get()) - before;
    manage::use_engine(old);
    (n, calls)
}

fn pipeline<X: El>(c: &Case, t: &mut Tape, cx: &mut Cx, sort: bool) -> R {
    let mode = [Mode::Plain, Mode::Root, Mode::Whole, Mode::Stages][t.below(4)];
    let n = if sort { t.below(2) } else { t.below(4) };
    let mut passes: Vec<Pass> = (0..n).map(|_| pass(t, false)).collect();
    passes.push(pass(t, sort));
    let passes = Rc::new(passes);
    // Without a cache, the cost is a power of the length, one higher with
    // each pass.
    let max = match (t.big(60), passes.len()) {
        (false, _) => 8,
        (true, 1..=3) => 80,
        (true, _) => 30,
    };
    let mut e = Edited::<X>::new(t, max);
    cx.label_if(t.long, "long lists");
    cx.show(|| format!("{:?} of {:?} over {:?}", mode, passes, e.nodes));
    cx.digest(&(format!("{:?}", mode), &passes, format!("{:?}", e.nodes)));
    manage::init_dcg();
    let mut arts = e.build();
    let pipe = Pipe::new(mode, &passes, arts[0].clone().unwrap());
    let mut last: Option<Vec<X>> = None;
    let mut changed = 0;
    for step in 0..c.b.len() + 1 {
        if step > 0 {
            let more = crate::p_map::more(&c.b[step - 1]);
            let mut t = Tape::new(&more);
            // Several edits at times.
            let (nodes, said) = e.edit(&mut t);
            e.apply(&mut t, &nodes, &mut arts);
            cx.show(|| format!("{}: {}", step, said));
            cx.digest(&said);
            if step < c.b.len() && t.chance(1, 3) {
                continue;
            }
        }
        let s = e.seq();
        let want = passes.iter().fold(elems(&s), |v, p| model_pass(p, v));
        let exact = scratch(&e, &passes);
        ensure!(elems(&exact) == want, "step {}: from scratch, {:?} becomes {:?} instead of {:?}", step, s, exact, want);
        ensure!(distinct(&names(&exact)), "step {}: names of {:?} are not distinct", step, exact);
        // Whatever was demanded before: no more work than from scratch.
        let measure = mode != Mode::Plain;
        let calls0 = CALLS.with(|c| c.get());
        if measure {
            adapton::reflect::dcg_reflect_begin()
        }
        if mode == Mode::Stages && step % 2 == 1 {
            // Look at a stage before the end first.
            let k = step % passes.len();
            let want = passes[..k + 1].iter().fold(elems(&s), |v, p| model_pass(p, v));
            let got = whole(force(&pipe.stages[k]));
            ensure!(elems(&got) == want, "step {}: stage {} of {:?} gives {:?} instead of {:?}", step, k, s, got, want);
        }
        let limit = c.b.get(step).map_or(0, |op| op[3] as usize % 11);
        if limit > 6 {
            let got = pipe.demand(Some(limit));
            ensure!(got[..] == exact[..limit.min(exact.len())], "step {}: the beginning for {:?} is {:?} instead of {:?}", step, s, got, exact);
            cx.label("partly demanded first");
        }
        let got = pipe.demand(None);
        ensure!(got == exact, "step {}: {:?} becomes {:?} instead of {:?}", step, s, got, exact);
        if measure {
            let ran = executions(&adapton::reflect::dcg_reflect_end());
            let calls = CALLS.with(|c| c.get()) - calls0;
            let most = fresh_work(mode, &e, &passes);
            ensure!(
                ran <= most.0 && calls <= most.1,
                "step {}: brought up to date with {} executions and {} calls, where a fresh run takes {} and {}",
                step, ran, calls, most.0, most.1
            );
        }
        let before = CALLS.with(|c| c.get());
        if mode != Mode::Plain {
            adapton::reflect::dcg_reflect_begin()
        }
        let again = pipe.demand(None);
        let mut ran = CALLS.with(|c| c.get()) - before;
        if mode != Mode::Plain {
            ran += executions(&adapton::reflect::dcg_reflect_end())
        }
        ensure!(again == got, "step {}: demanded again, {:?} instead of {:?}", step, again, got);
        ensure!(mode == Mode::Plain || ran == 0, "step {}: demanding again runs {} functions", step, ran);
        changed += (step > 0 && last.as_ref() != Some(&want)) as u32;
        last = Some(want);
    }
    cx.label(match mode {
        Mode::Plain => "passes called again",
        Mode::Root => "one computation",
        Mode::Whole => "one computation to the end",
        Mode::Stages => "one computation per pass",
    });
    for p in passes.iter() {
        cx.label(match p {
            Pass::Map(0, _) => "eager map",
            Pass::Map(1, _) => "eager map 2",
            Pass::Map(..) => "lazy map",
            Pass::Filter(0, _) => "eager filter",
            Pass::Filter(..) => "lazy filter",
            Pass::Reverse => "reverse",
            Pass::Tree(..) => "tree and back",
            Pass::TreeFilterList(..) => "filter tree to list",
            Pass::TreeFilter(..) => "filter tree",
            Pass::Prune(_) => "prune",
            Pass::Copy(_) => "copy",
            Pass::Sort(_, 0, ..) => "sort",
            Pass::Sort(_, 1, ..) => "sort 2",
            Pass::Sort(..) => "sort 3",
        })
    }
    cx.nontrivial = changed > 0;
    Ok(())
}

fn by_type(c: &Case, cx: &mut Cx, sort: bool) -> R {
    let mut t = Tape::new(&c.a);
    if t.chance(1, 4) {
        pipeline::<String>(c, &mut t, cx, sort)
    } else {
        pipeline::<i64>(c, &mut t, cx, sort)
    }
}
fn c19(c: &Case, cx: &mut Cx) -> R {
    by_type(c, cx, false)
}

/// Sorting a tree of any shape, under either engine.
fn sort_tree<X: El>(c: &Case, t: &mut Tape, cx: &mut Cx) -> R {
    if t.chance(1, 3) {
        manage::init_naive();
        cx.label("cache-free");
    } else {
        manage::init_dcg();
    }
    let (tree, m): (Tree<X>, MT<X>) = ns(name_of_str("in"), || {
        let depth = if t.big(60) { 9 } else { 5 };
        gen_tree(t, depth, &mut 0)
    });
    let mut want = elems(&m.seq());
    want.sort();
    cx.show(|| format!("{:?}", m));
    cx.digest(&m);
    for (step, op) in c.b.iter().enumerate() {
        let mut t = Tape::new(op);
        let (k, named, n) = (t.below(3), t.chance(1, 2), t.below(9));
        cx.show(|| format!("sort {} {} {}", k, named, n));
        cx.digest(&(k, named));
        let l = ns(name_of_string(format!("step{}", step)), || sorted(k, if named { Some(step) } else { None }, tree.clone()));
        let part = elems(&list_demand(l.clone(), n));
        ensure!(part[..] == want[..part.len()], "step {}: sort {} of {:?} begins {:?}", step, k, m, part);
        let got = whole(l);
        ensure!(elems(&got) == want, "step {}: sort {} of {:?} is {:?}", step, k, m, got);
        ensure!(distinct(&names(&got)), "step {}: names of {:?} are not distinct", step, got);
    }
    ensure!(walk(0, &tree) == m, "the tree changed");
    cx.label("tree of any shape");
    cx.nontrivial = want.len() > 1;
    Ok(())
}

/// Merging two edited sorted lists.
fn merge_edited<X: El>(c: &Case, t: &mut Tape, cx: &mut Cx) -> R {
    manage::init_dcg();
    let wrapper = t.chance(1, 2);
    let inside = t.chance(1, 2);
    let tops: [Option<Name>; 2] = [if t.chance(1, 2) { Some(nm(900)) } else { None }, if t.chance(1, 2) { Some(nm(901)) } else { None }];
    // Each list: values in ascending blocks, one cell per block, so that
    // blocks can be edited and stay in order.
    let nb = if t.big(60) { 1 + t.below(40) } else { 1 + t.below(4) };
    let block = |t: &mut Tape, b: usize| -> Vec<X> {
        let n = t.below(4);
        let mut v: Vec<X> = (0..n).map(|_| X::of(b as i64 * 4 + t.below(5) as i64)).collect();
        v.sort();
        v
    };
    let mut bl: Vec<Vec<Vec<X>>> = (0..2).map(|_| (0..nb).map(|b| block(t, b)).collect()).collect();
    let art: Rc<RefCell<Vec<Vec<Art<List<X>>>>>> = Default::default();
    let content = |bl: &Vec<Vec<Vec<X>>>, art: &Vec<Art<List<X>>>, side: usize, b: usize| -> List<X> {
        let mut l = match art.get(b + 1) {
            None => List::Nil,
            Some(a) => List::Name(nm(100 * side + b), Box::new(List::Art(a.clone()))),
        };
        for x in bl[side][b].iter().rev() {
            l = List::cons(x.clone(), l)
        }
        l
    };
    for side in 0..2 {
        let mut v: Vec<Art<List<X>>> = vec![];
        for b in (0..nb).rev() {
            // Blocks are filled from the end.
            let mut l = match v.first() {
                None => List::Nil,
                Some(a) => List::Name(nm(100 * side + b), Box::new(List::Art(a.clone()))),
            };
            for x in bl[side][b].iter().rev() {
                l = List::cons(x.clone(), l)
            }
            v.insert(0, ns(name_of_str("in"), || cell(nm(100 * side + b), l)))
        }
        art.borrow_mut().push(v);
    }
    cx.show(|| format!("merge {:?} {} {} {:?}", bl, wrapper, inside, tops));
    cx.digest(&(&bl, wrapper, inside));
    let first: Vec<List<X>> = (0..2).map(|s| List::Art(art.borrow()[s][0].clone())).collect();
    let merge = move |(a, b): (List<X>, List<X>), tops: [Option<Name>; 2]| -> List<X> {
        let [n1, n2] = tops;
        ns(name_of_str("m"), || if wrapper { list_merge_wrapper(n1, a, n2, b) } else { list_merge(n1, a, n2, b) })
    };
    let arg = (first[0].clone(), first[1].clone());
    let root = thunk(root_name("merge", 0), ProgPt { symbol: "merge" }, Rc::new(Box::new(merge.clone())), arg.clone(), tops.clone());
    let mut edits = 0;
    for step in 0..c.b.len() + 1 {
        if step > 0 {
            let more = crate::p_map::more(&c.b[step - 1]);
            let mut t = Tape::new(&more);
            let (side, b) = (t.below(2), t.below(nb));
            let new = block(&mut t, b);
            edits += (bl[side][b] != new) as u32;
            cx.show(|| format!("block {} of {} becomes {:?}", b, side, new));
            cx.digest(&(side, b, &new));
            bl[side][b] = new;
            let l = content(&bl, &art.borrow()[side], side, b);
            set(&art.borrow()[side][b], l);
        }
        let mut want: Vec<X> = bl.iter().flat_map(|s| s.iter().flatten().cloned()).collect();
        // Blocks may overlap at their ends.
        let sorted = bl.iter().all(|s| { let v: Vec<&X> = s.iter().flatten().collect(); v.windows(2).all(|w| w[0] <= w[1]) });
        if !sorted {
            continue;
        }
        want.sort();
        let l = if inside { force(&root) } else { merge(arg.clone(), tops.clone()) };
        let n = c.b.get(step).map_or(3, |o| o[2] as usize % 7);
        let part = elems(&list_demand(l.clone(), n));
        ensure!(part[..] == want[..part.len()], "step {}: merged, it begins {:?} instead of {:?}", step, part, want);
        let got = elems(&whole(l));
        ensure!(got == want, "step {}: merged {:?} instead of {:?}", step, got, want);
    }
    cx.label("merge");
    cx.nontrivial = edits > 0;
    Ok(())
}

fn c18(c: &Case, cx: &mut Cx) -> R {
    let mut t = Tape::new(&c.a);
    match t.weighted(&[3, 2, 2]) {
        0 => {
            cx.label("edited list");
            let d = c.a.get(1..).unwrap_or(&[]).to_vec();
            by_type(&Case { a: d, b: c.b.clone() }, cx, true)
        }
        1 => match t.below(3) {
            0 => sort_tree::<i64>(c, &mut t, cx),
            1 => sort_tree::<String>(c, &mut t, cx),
            _ => sort_tree::<(bool, Option<Box<i64>>)>(c, &mut t, cx),
        },
        _ => merge_edited::<i64>(c, &mut t, cx),
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C18",
            a: (10, 120),
            b: (1, 10),
            quick: 100_000,
            thorough: 3_000_000,
            run: c18,
            rule: "Every merge sort over trees of edited lists (up to eight cells, edited up to ten times: items and whole segments inserted, removed, replaced, brought back) and trees of any shape, and merges of edited sorted lists, partly demanded first, in computations or outside; non-trivial: an edit changed the result, or a tree of at least two elements",
            assumptions: &["the element type's order is total and agrees with equality", "each pass runs in a namespace of its own and is given distinct names"],
        },
        Prop {
            id: "C19",
            a: (10, 120),
            b: (1, 12),
            quick: 50_000,
            thorough: 3_000_000,
            run: c19,
            rule: "Pipelines of one to four passes of nine kinds over a list of up to eight cells, run anew, in one computation or in one computation per pass, after each of up to twelve edits of cells (items and segments inserted, removed, replaced, brought back), partly demanded first; compared with vectors and, names included, with the cache-free engine; non-trivial: an edit changed the result",
            assumptions: &["each pass runs in a namespace of its own and is given lists of distinct names, as its naming demands", "links between cells never form a cycle"],
        },
    ]
}
