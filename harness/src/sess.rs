//! Sessions: histories of edits and demands over a generated program, run
//! on the real engine next to its oracles.

use crate::engs::*;
use crate::fw::*;
use crate::lang::*;
use adapton::engine::manage;
use adapton::reflect as rf;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Slot {
    Cell(V<()>),
    Thunk(V<()>),
}

/// Weights of the operations of a history.
#[derive(Clone, Copy)]
pub struct Ws {
    pub demand: usize,
    pub view: usize,
    pub all: usize,
    pub set: usize,
    pub undo: usize,
    pub recell: usize,
    pub reparam: usize,
    pub recreate: usize,
    pub kind: usize,
}
pub const WS: Ws = Ws { demand: 6, view: 0, all: 1, set: 8, undo: 1, recell: 1, reparam: 1, recreate: 1, kind: 0 };

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Demand(usize, Obs),
    All,
    Set(usize, V<()>),
    /// Sets, then sets back, without a demand between.
    Undo(usize, V<()>),
    ReCell(usize, V<()>),
    Reparam(usize, V<()>),
    Recreate(usize),
    ToThunk(usize, V<()>),
    ToCell(usize, V<()>),
    Nop,
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub shadow: bool,
    pub reflect: bool,
    pub trace: bool,
    /// Add debugging events to one of so many requests (0: to none).
    pub notes: usize,
    /// Every articulation is structural (and the harness demands so).
    pub structural: bool,
    /// Also compare with the cache-free engine.
    pub naive: bool,
    /// Demand twice, and require the second to do nothing.
    pub twice: bool,
    /// Demand with a cycle value that must never be seen.
    pub cyc: bool,
    /// Structural identity by the engine's option, not by regions.
    pub by_flag: bool,
    /// Record (and drop) a trace of every operation.
    pub record: bool,
}
pub const OPTS: Opts =
    Opts { shadow: false, reflect: false, trace: false, notes: 0, structural: false, naive: false, twice: false, cyc: false, by_flag: false, record: false };

pub struct Sess {
    pub prog: Rc<Prog>,
    pub opts: Opts,
    pub real: Rc<Ctx<RealEng>>,
    pub shadow: Option<Rc<Ctx<ShadowEng>>>,
    pub model: Vec<Slot>,
    pub last: Vec<Option<V<()>>>,
    pub changed: u32,
    pub reused: u32,
    pub demands: u32,
    pub edits: u32,
    pub partial_fire: u32,
    pub edges_checked: u64,
    pub dirtied: u64,
    pub spans: u64,
    pub undirtied: u64,
    pub events: u64,
    pub execs: u64,
    pub too_big: bool,
    /// What each location last held (for allocation events).
    held: HashMap<RArt, (bool, String)>,
    cached: HashSet<rf::Loc>,
}

pub fn perturb(old: &V<()>, init: &V<()>, op: &[u16; 4]) -> V<()> {
    match scale(op[3], 8) {
        0 | 1 | 2 => gen_val(op[1], op[2]),
        3 => old.clone(),
        4 => init.clone(),
        k => {
            let d = [1, -1, 2, -2, 10][scale(op[2], 5)];
            match old {
                V::P(a, b) if k == 5 => V::P(*a, b + d),
                V::P(a, b) => V::P(a + d, *b),
                v => V::I(int(v) + d),
            }
        }
    }
}

/// Accesses the options of the active engine.
pub fn flags<T>(f: impl FnOnce(&mut adapton::engine::Flags) -> T) -> T {
    // An engine is only accessible while it is swapped out.
    let e = manage::init_naive();
    let r = match &e {
        adapton::engine::Engine::DCG(d) => f(&mut d.borrow_mut().flags),
        _ => panic!("harness: no caching engine is active"),
    };
    manage::use_engine(e);
    r
}

/// Pairs (source, target, is-allocation, is-dirty) of a reflected graph.
pub type Edge = (rf::Loc, rf::Loc, bool);
pub fn dirty_edges(d: &rf::DCG) -> HashSet<Edge> {
    let mut s = HashSet::new();
    for (l, n) in d.table.iter() {
        if let Some(ss) = rf::succs_of_node(n) {
            for e in ss {
                if e.dirty {
                    s.insert((l.clone(), e.loc.clone(), e.effect == rf::Effect::Alloc));
                }
            }
        }
    }
    s
}

/// The well-formedness invariants of a quiescent graph (C07).
pub fn check_wf(d: &rf::DCG) -> R {
    let ls = rf::string_of_loc;
    ensure!(d.stack.is_empty(), "a frame is left on the stack");
    ensure!(d.path.is_empty(), "a namespace is left open: {}", rf::string_of_path(&d.path));
    for (l, n) in d.table.iter() {
        if let Some(ss) = rf::succs_of_node(n) {
            for e in ss {
                let t = match d.table.get(&e.loc) {
                    None => return Err(format!("dangling edge {} -> {}", ls(l), ls(&e.loc))),
                    Some(t) => t,
                };
                match rf::preds_of_node(t) {
                    None => return Err(format!("edge {} -> {} to an untracked node", ls(l), ls(&e.loc))),
                    Some(ps) => ensure!(
                        ps.iter().any(|p| p.loc == *l && p.effect == e.effect),
                        "edge {} -> {} ({:?}) is not recorded at its target",
                        ls(l),
                        ls(&e.loc),
                        e.effect
                    ),
                }
            }
            // A dirty edge dirties all observers of its source.
            if ss.iter().any(|e| e.dirty && e.loc != *l) {
                for p in rf::preds_of_node(n).into_iter().flatten() {
                    if p.effect == rf::Effect::Force && p.loc != *l {
                        let src = match d.table.get(&p.loc) {
                            Some(s) => s,
                            None => return Err(format!("dangling predecessor {} of {}", ls(&p.loc), ls(l))),
                        };
                        let clean = rf::succs_of_node(src)
                            .into_iter()
                            .flatten()
                            .find(|e| e.loc == *l && e.effect == rf::Effect::Force)
                            .map(|e| !e.dirty)
                            .unwrap_or(false);
                        ensure!(!clean, "{} has a dirty edge, but the edge {} -> {} is clean", ls(l), ls(&p.loc), ls(l));
                    }
                }
            }
        }
        for p in rf::preds_of_node(n).into_iter().flatten() {
            let ok = d.table.get(&p.loc).and_then(rf::succs_of_node).map_or(false, |ss| ss.iter().any(|e| e.loc == *l && e.effect == p.effect));
            ensure!(ok, "predecessor {} ({:?}) of {} has no such edge", ls(&p.loc), p.effect, ls(l));
        }
    }
    Ok(())
}

/// Nothing reachable from `l` along observations is dirty.
pub fn check_clean(d: &rf::DCG, l: &rf::Loc) -> Result<usize, String> {
    let mut todo = vec![l.clone()];
    let mut done = HashSet::new();
    while let Some(l) = todo.pop() {
        if !done.insert(l.clone()) {
            continue;
        }
        for e in d.table.get(&l).and_then(rf::succs_of_node).into_iter().flatten() {
            if e.effect == rf::Effect::Force {
                ensure!(!e.dirty, "after the demand, edge {} -> {} is dirty", rf::string_of_loc(&l), rf::string_of_loc(&e.loc));
                todo.push(e.loc.clone());
            }
        }
    }
    Ok(done.len())
}

/// The location of a tracked articulation.
pub fn loc_of(a: &RArt) -> Option<rf::Loc> {
    match adapton::parse_val::parse_val(&a.0) {
        rf::Val::Struct(_, fs) => match fs.into_iter().next() {
            Some((_, rf::Val::Art(l, _))) => Some(l),
            _ => None,
        },
        rf::Val::Art(l, _) => Some(l),
        _ => None,
    }
}

impl Sess {
    pub fn decode(&self, op: &[u16; 4], w: &Ws) -> Act {
        let n = self.model.len();
        let ws = [w.demand, w.view, w.all, w.set, w.undo, w.recell, w.reparam, w.recreate, w.kind];
        let mut x = scale(op[0], ws.iter().sum());
        let mut k = 0;
        while x >= ws[k] {
            x -= ws[k];
            k += 1;
        }
        let cells: Vec<usize> = (0..n).filter(|i| matches!(self.model[*i], Slot::Cell(_))).collect();
        let thunks: Vec<usize> = (0..n).filter(|i| matches!(self.model[*i], Slot::Thunk(_))).collect();
        // Prefers the topmost thunks.
        let pick = |v: &Vec<usize>, r: u16| v.get(v.len().wrapping_sub(1 + scale(r, v.len()))).cloned();
        let fresh = |i: usize| match &self.model[i] {
            Slot::Cell(v) | Slot::Thunk(v) => perturb(v, self.prog.init.get(i).unwrap_or(&V::I(0)), op),
        };
        let a = match k {
            0 => pick(&thunks, op[1]).map(|i| Act::Demand(i, Obs::Full)),
            1 => {
                let p = PROJS[scale(op[2], PROJS.len())];
                let i = n - 1 - scale(op[1], n);
                Some(Act::Demand(i, if scale(op[3], 4) == 0 { Obs::Abs(p) } else { Obs::Map(p) }))
            }
            2 => Some(Act::All),
            3 => pick(&cells, op[1]).map(|i| Act::Set(i, fresh(i))),
            4 => pick(&cells, op[1]).map(|i| Act::Undo(i, fresh(i))),
            5 => pick(&cells, op[1]).map(|i| Act::ReCell(i, fresh(i))),
            6 => pick(&thunks, op[1]).map(|i| Act::Reparam(i, fresh(i))),
            7 => pick(&thunks, op[1]).map(Act::Recreate),
            _ => {
                let i = scale(op[1], n);
                Some(match &self.model[i] {
                    Slot::Cell(_) => Act::ToThunk(i, V::I(zigzag(scale(op[2], 5)))),
                    Slot::Thunk(_) => Act::ToCell(i, gen_val(op[2], op[3])),
                })
            }
        };
        a.unwrap_or(Act::Nop)
    }

    fn scoped<T>(&self, f: impl FnOnce() -> T) -> T {
        if self.opts.structural && !self.opts.by_flag {
            adapton::engine::structural(f)
        } else {
            f()
        }
    }

    /// Inputs keep their names: structural cells are immutable.
    fn named<T>(&self, f: impl FnOnce() -> T) -> T {
        if self.opts.by_flag {
            let was = flags(|fl| std::mem::replace(&mut fl.ignore_nominal_use_structural, false));
            let r = f();
            flags(|fl| fl.ignore_nominal_use_structural = was);
            r
        } else {
            f()
        }
    }

    fn slot_arg<A>(&self, i: usize, p: &V<()>) -> TArg<A> {
        let inst = if self.opts.structural { Nm::Unit } else { self.prog.names[i].clone() };
        TArg { fun: i, inst, param: val(p) }
    }

    fn mk_real(&self, cx: &Rc<Ctx<RealEng>>, i: usize) -> RArt {
        let n = &self.prog.names[i];
        match &self.model[i] {
            Slot::Cell(v) => self.named(|| cx.eng.cell(n, val(v))),
            Slot::Thunk(p) => self.scoped(|| RealEng::thunk(cx, n, self.slot_arg(i, p))),
        }
    }

    /// The active engine must be a fresh DCG.
    pub fn new(prog: Prog, opts: Opts) -> Sess {
        let prog = Rc::new(prog);
        let n = prog.slots.len();
        let model: Vec<Slot> =
            (0..n).map(|i| if i < prog.ncells { Slot::Cell(prog.init[i].clone()) } else { Slot::Thunk(V::I(0)) }).collect();
        let real = Ctx::new(&prog, RealEng::default(), opts.structural);
        real.eng.cyc.set(opts.cyc);
        real.eng.notes.set(opts.notes);
        if opts.trace {
            *real.eng.log.borrow_mut() = Some(vec![]);
        }
        let shadow = if opts.shadow { Some(ShadowEng::ctx(&prog)) } else { None };
        let mut s = Sess {
            last: vec![None; n],
            prog,
            opts,
            real,
            shadow,
            model,
            changed: 0,
            reused: 0,
            demands: 0,
            edits: 0,
            partial_fire: 0,
            edges_checked: 0,
            dirtied: 0,
            spans: 0,
            undirtied: 0,
            events: 0,
            execs: 0,
            too_big: false,
            held: HashMap::new(),
            cached: HashSet::new(),
        };
        for i in 0..n {
            let a = s.mk_real(&s.real, i);
            s.real.slots.borrow_mut().push(a);
            if let Some(sh) = &s.shadow {
                let a = s.mk_shadow(sh, i);
                sh.slots.borrow_mut().push(a);
            }
        }
        s.real.fuel.set(0);
        s.absorb_log();
        s
    }

    fn absorb_log(&mut self) {
        let log = match self.real.eng.log.borrow_mut().as_mut() {
            Some(l) => std::mem::take(l),
            None => return,
        };
        for a in log {
            if let Asked::Alloc(a, k, s) = a {
                self.held.insert(a, (k, s));
            }
        }
    }

    fn mk_shadow(&self, cx: &Rc<Ctx<ShadowEng>>, i: usize) -> SArt {
        let n = &self.prog.names[i];
        match &self.model[i] {
            Slot::Cell(v) => cx.eng.cell(n, val(v)),
            Slot::Thunk(p) => ShadowEng::thunk(cx, n, self.slot_arg(i, p)),
        }
    }

    /// From-scratch value of every slot, and the work that took.
    pub fn pure(&self) -> Option<(Vec<V<()>>, Rc<Ctx<PureEng>>)> {
        let cx = Ctx::new(&self.prog, PureEng, self.opts.structural);
        for i in 0..self.model.len() {
            let a = match &self.model[i] {
                Slot::Cell(v) => cx.eng.cell(&Nm::Unit, val(v)),
                Slot::Thunk(p) => PureEng::thunk(&cx, &Nm::Unit, self.slot_arg(i, p)),
            };
            cx.slots.borrow_mut().push(a);
        }
        cx.fuel.set(4000);
        let r = catch(|| {
            (0..self.model.len())
                .map(|i| {
                    let v = cx.eng.observe(&cx.slot(i), Obs::Full);
                    resolve(&cx, v)
                })
                .collect::<Vec<_>>()
        });
        match r {
            Ok(v) => Some((v, cx)),
            Err(m) if m.starts_with(OUT_OF_FUEL) => None,
            Err(m) => panic!("harness: {}", m),
        }
    }

    fn edit(&mut self, f: impl FnOnce(&mut Sess)) -> R {
        let before = self.real.total.get();
        self.real.fuel.set(0);
        self.edits += 1;
        f(self);
        ensure!(self.real.total.get() == before, "an edit ran user code");
        Ok(())
    }

    fn assign(&mut self, i: usize, v: &V<()>, re: bool) -> R {
        self.model[i] = Slot::Cell(v.clone());
        let v = v.clone();
        let mut same = true;
        self.edit(|s| {
            let a = s.real.slot(i);
            if re {
                same = s.named(|| s.real.eng.cell(&s.prog.names[i], val(&v))) == a;
            } else {
                s.real.eng.set(&a, val(&v));
            }
            if let Some(sh) = &s.shadow {
                sh.eng.set(&sh.slot(i), val(&v));
            }
        })?;
        if self.opts.trace && !re {
            let a = self.real.slot(i);
            let s = match &self.model[i] {
                Slot::Cell(v) => format!("{:?}", val::<RArt>(v)),
                _ => unreachable!(),
            };
            self.held.insert(a, (true, s));
        }
        ensure!(same, "allocating a cell again gave another articulation");
        Ok(())
    }

    fn realloc(&mut self, i: usize, m: Slot) -> R {
        self.model[i] = m;
        let mut same = true;
        self.edit(|s| {
            same = s.mk_real(&s.real, i) == s.real.slot(i);
            if let Some(sh) = &s.shadow {
                s.mk_shadow(sh, i);
            }
        })?;
        ensure!(same, "allocating under the same name gave another articulation");
        Ok(())
    }

    fn demand_real(&mut self, i: usize, o: Obs, fuel: u64) -> V<()> {
        let cx = self.real.clone();
        cx.fuel.set(fuel);
        let v = self.scoped(|| {
            let v = cx.eng.observe(&cx.slot(i), o);
            resolve(&cx, v)
        });
        cx.fuel.set(0);
        v
    }

    fn demand(&mut self, i: usize, o: Obs, pure: &[V<()>], fuel: u64) -> R {
        self.demands += 1;
        let before = self.real.total.get();
        let got = self.demand_real(i, o, fuel);
        let ran = self.real.total.get() - before;
        self.execs += ran;
        let want = match o {
            Obs::Full => pure[i].clone(),
            Obs::Map(p) | Obs::Abs(p) => {
                // Projections see articulations, not what they resolve to.
                let cx = self.pure().map(|x| x.1);
                match cx {
                    Some(cx) => V::I(proj(p, &cx.eng.observe(&cx.slot(i), Obs::Full))),
                    None => return Ok(()),
                }
            }
        };
        ensure!(
            got == want,
            "demand of s{} ({:?}) gave {:?}, but from scratch it is {:?}",
            i,
            self.prog.names[i],
            got,
            want
        );
        if o == Obs::Full && matches!(self.model[i], Slot::Thunk(_)) {
            if let Some(l) = &self.last[i] {
                if *l != got {
                    self.changed += 1
                }
                if ran == 0 {
                    self.reused += 1
                }
            }
            self.last[i] = Some(got.clone());
        }
        if self.opts.twice {
            let before = self.real.total.get();
            let again = self.demand_real(i, o, fuel);
            ensure!(again == got, "demanded again without an edit, s{} gave {:?}, then {:?}", i, got, again);
            ensure!(self.real.total.get() == before, "a repeated demand of s{} ran user code", i);
        }
        if let Some(sh) = self.shadow.clone() {
            sh.fuel.set(4_000_000);
            let v = sh.eng.observe(&sh.slot(i), o);
            let v = resolve(&sh, v);
            if v != want {
                return Err(format!("harness: the reference engine gave {:?} for s{}, not {:?}", v, i, want));
            }
            let rc = self.real.counts.borrow();
            let sc = sh.counts.borrow();
            for (k, n) in rc.iter() {
                let m = sc.get(k).cloned().unwrap_or(0);
                ensure!(
                    *n <= m,
                    "computation f{} of [{:?}] ran {} times, where {} were needed (found on demand of s{})",
                    k.0,
                    k.1,
                    n,
                    m,
                    i
                );
            }
        }
        if self.opts.reflect {
            let d = rf::dcg_reflect_now().ok_or("no graph to reflect")?;
            check_wf(&d)?;
            if let Some(l) = loc_of(&self.real.slot(i)) {
                ensure!(d.table.contains_key(&l), "the demanded articulation {} is not in the graph", rf::string_of_loc(&l));
                self.edges_checked += check_clean(&d, &l)? as u64;
                if let Some(rf::Node::Comp(c)) = d.table.get(&l) {
                    // The reflected value is the one just demanded.
                    let before = self.real.total.get();
                    let v = self.scoped(|| self.real.eng.observe(&self.real.slot(i), Obs::Full));
                    ensure!(self.real.total.get() == before, "a repeated demand ran user code");
                    let v = adapton::parse_val::parse_val(&v);
                    ensure!(c.value == Some(v.clone()), "reflected value {:?} of s{} is not the demanded one, {:?}", c.value, i, v);
                }
                if let Some(rf::Node::Ref(c)) = d.table.get(&l) {
                    if let Slot::Cell(v) = &self.model[i] {
                        let v = adapton::parse_val::parse_val(&val::<RArt>(v));
                        ensure!(c.value == v, "reflected content {:?} of cell s{} is not {:?}", c.value, i, v);
                    }
                }
            }
        }
        Ok(())
    }

    /// Performs an action, with all the checks of the session.
    pub fn act(&mut self, a: &Act) -> R {
        if self.too_big {
            return Ok(());
        }
        if self.opts.trace {
            self.act_traced(a)
        } else if self.opts.record {
            rf::dcg_reflect_begin();
            let r = self.act_plain(a);
            self.events += rf::dcg_reflect_end().len() as u64;
            r
        } else {
            self.act_plain(a)
        }
    }

    fn act_plain(&mut self, a: &Act) -> R {
        match a {
            Act::Nop => (),
            Act::Demand(..) | Act::All => {
                let (pure, pcx) = match self.pure() {
                    Some(x) => x,
                    None => {
                        self.too_big = true;
                        return Ok(());
                    }
                };
                // Generous: a runaway evaluation only.
                let fuel = 2000 + 40 * pcx.total.get();
                match a {
                    Act::Demand(i, o) => self.demand(*i, *o, &pure, fuel)?,
                    _ => {
                        for i in (0..self.model.len()).rev() {
                            if matches!(self.model[i], Slot::Thunk(_)) {
                                self.demand(i, Obs::Full, &pure, fuel)?
                            }
                        }
                    }
                }
                if self.opts.naive {
                    self.check_naive(&pure)?
                }
            }
            Act::Set(i, v) => {
                let pre = self.before_set();
                self.assign(*i, v, false)?;
                self.after_set(*i, pre)?
            }
            Act::ReCell(i, v) => {
                let pre = self.before_set();
                self.assign(*i, v, true)?;
                self.after_set(*i, pre)?
            }
            Act::Undo(i, v) => {
                let old = match &self.model[*i] {
                    Slot::Cell(v) => v.clone(),
                    _ => unreachable!(),
                };
                self.assign(*i, v, false)?;
                self.assign(*i, &old, false)?
            }
            Act::Reparam(i, p) => self.realloc(*i, Slot::Thunk(p.clone()))?,
            Act::Recreate(i) => {
                let m = self.model[*i].clone();
                self.realloc(*i, m)?
            }
            Act::ToThunk(i, p) => self.realloc(*i, Slot::Thunk(p.clone()))?,
            Act::ToCell(i, v) => self.realloc(*i, Slot::Cell(v.clone()))?,
        }
        if self.opts.reflect {
            let d = rf::dcg_reflect_now().ok_or("no graph to reflect")?;
            check_wf(&d)?;
        }
        Ok(())
    }

    // -------- which edges an edit may dirty (C06)

    fn before_set(&self) -> Option<rf::DCG> {
        if self.shadow.is_some() && self.opts.reflect {
            rf::dcg_reflect_now()
        } else {
            None
        }
    }

    /// Exactly the observers whose view changed, and their observers, are
    /// newly dirty.
    fn after_set(&mut self, i: usize, pre: Option<rf::DCG>) -> R {
        let (pre, sh) = match (pre, self.shadow.clone()) {
            (Some(p), Some(s)) => (p, s),
            _ => return Ok(()),
        };
        let post = rf::dcg_reflect_now().ok_or("no graph")?;
        let (was, is) = (dirty_edges(&pre), dirty_edges(&post));
        let target = loc_of(&self.real.slot(i)).ok_or("untracked input")?;
        let st = sh.slot(i);
        let now: V<SArt> = match &self.model[i] {
            Slot::Cell(v) => val(v),
            _ => return Ok(()),
        };
        let mut may: HashSet<Edge> = HashSet::new();
        let mut todo = vec![];
        let mut kept = 0;
        for a in sh.eng.locs() {
            let seen = match sh.eng.seen(&a) {
                Some(s) => s,
                None => continue,
            };
            let src = real_loc(&a);
            let mut sees = false;
            let mut fires = false;
            for (b, s) in seen.iter() {
                if *b == st {
                    sees = true;
                    fires |= match s {
                        Seen::Full(w) => *w != now,
                        Seen::Map(p, w) => proj(*p, &now) != *w,
                    };
                }
            }
            // The engine compares a full observation with the previous
            // content, not with what was observed.
            let full = seen.iter().any(|(b, s)| *b == st && matches!(s, Seen::Full(_)));
            if sees && (fires || full) {
                may.insert((src.clone(), target.clone(), false));
                todo.push(src);
            } else if sees {
                kept += 1
            }
        }
        while let Some(l) = todo.pop() {
            for p in post.table.get(&l).and_then(rf::preds_of_node).into_iter().flatten() {
                if p.effect == rf::Effect::Force && may.insert((p.loc.clone(), l.clone(), false)) {
                    todo.push(p.loc.clone())
                }
            }
        }
        for e in is.difference(&was) {
            // The shadow records all observers, except those left over
            // from computations whose cached result was discarded.
            let stale = sh.eng.locs().iter().all(|a| real_loc(a) != e.0 || sh.eng.seen(a).is_none());
            ensure!(
                may.contains(e) || stale,
                "setting s{} dirtied the edge {} -> {}, whose view did not change",
                i,
                rf::string_of_loc(&e.0),
                rf::string_of_loc(&e.1)
            );
            self.dirtied += 1;
        }
        if kept > 0 {
            self.undirtied += 1
        }
        Ok(())
    }

    // -------- the cache-free engine (C13)

    fn check_naive(&mut self, pure: &[V<()>]) -> R {
        let dcg = manage::init_naive();
        ensure!(manage::engine_is_naive() && !manage::engine_is_dcg(), "the cache-free engine is not reported as such");
        let bad = self.check_naive_here(pure);
        let nv = manage::use_engine(dcg);
        ensure!(matches!(nv, adapton::engine::Engine::Naive), "the engine swapped out is not the one that was active");
        ensure!(manage::engine_is_dcg() && !manage::engine_is_naive(), "the caching engine is not reported as such");
        bad
    }

    /// With the cache-free engine active.
    pub fn check_naive_here(&mut self, pure: &[V<()>]) -> R {
        let cx = Ctx::new(&self.prog, RealEng::default(), false);
        for i in 0..self.model.len() {
            let n = &self.prog.names[i];
            let a = match &self.model[i] {
                Slot::Cell(v) => cx.eng.cell(n, val(v)),
                Slot::Thunk(p) => RealEng::thunk(&cx, n, self.slot_arg(i, p)),
            };
            cx.slots.borrow_mut().push(a);
        }
        cx.fuel.set(3000);
        let mut bad = Ok(());
        for i in (0..self.model.len()).rev() {
            let r = catch(|| {
                let v = cx.eng.observe(&cx.slot(i), Obs::Full);
                resolve(&cx, v)
            });
            match r {
                Ok(v) if v == pure[i] => self.events += 1,
                Ok(v) => bad = Err(format!("cache-free, s{} is {:?}, but from scratch {:?}", i, v, pure[i])),
                Err(m) if m.starts_with(OUT_OF_FUEL) => break,
                Err(m) => bad = Err(format!("cache-free, s{} panicked: {}", i, m)),
            }
        }
        bad
    }

    // -------- recorded traces (C14)

    fn act_traced(&mut self, a: &Act) -> R {
        use rf::trace::{trace_count, AllocCase, AllocKind, ChangeFlag, Effect, EffectEdge, ForceCase, Trace};
        *self.real.eng.log.borrow_mut() = Some(vec![]);
        let before = rf::dcg_reflect_now().ok_or("no graph")?;
        let total0 = self.real.total.get();
        rf::dcg_reflect_begin();
        let r = self.act_plain(a);
        let tr = rf::dcg_reflect_end();
        r?;
        if self.too_big {
            return Ok(());
        }
        let after = rf::dcg_reflect_now().ok_or("no graph")?;
        let log = std::mem::take(self.real.eng.log.borrow_mut().as_mut().unwrap());
        const END: usize = usize::MAX;
        let mut flat: Vec<(&Trace, usize)> = vec![];
        fn walk<'a>(ts: &'a [Trace], d: usize, out: &mut Vec<(&'a Trace, usize)>) {
            for t in ts {
                out.push((t, d));
                walk(&t.extent, d + 1, out);
                if let Effect::Debug(..) = t.effect {
                    out.push((t, END));
                }
            }
        }
        walk(&tr, 0, &mut flat);
        self.events += flat.len() as u64;
        let edge = |t: &Trace| match &t.edge {
            EffectEdge::Fwd(e) => Some((e.loc.clone(), e.succ.clone())),
            _ => None,
        };
        let mut evals: HashMap<rf::Loc, u32> = HashMap::new();
        let mut nevals = 0u64;
        let mut fresh: Vec<rf::Loc> = vec![];
        let mut dirty: HashSet<Edge> = HashSet::new();
        let mut removed: HashMap<rf::Loc, Vec<(rf::Loc, bool)>> = HashMap::new();
        let mut asked = log.iter();
        let mut ndirty = 0;
        let mut spans: HashMap<*const Trace, usize> = HashMap::new();
        for (t, d) in &flat {
            let e = edge(t);
            if *d == END {
                if let Some(k) = spans.get(&(*t as *const Trace)) {
                    match asked.next() {
                        Some(Asked::End(l)) if l == k => (),
                        x => return Err(format!("the extent of debugging event {} ends where {:?} happened", k, x)),
                    }
                }
                continue;
            }
            match &t.effect {
                Effect::CleanEval => {
                    nevals += 1;
                    if let Some((src, s)) = &e {
                        // Re-evaluates the source of the edge, or, without
                        // one, its target.
                        let l = src.clone().unwrap_or(s.loc.clone());
                        self.cached.insert(l.clone());
                        *evals.entry(l).or_insert(0) += 1
                    }
                }
                Effect::Force(c) => {
                    let (_, s) = e.ok_or("a Force event without an edge")?;
                    ensure!(s.effect == rf::Effect::Force, "a Force event on an edge of another kind");
                    let a = loop {
                        match asked.next() {
                            None => return Err("more events were traced than happened".into()),
                            Some(x) => break x,
                        }
                    };
                    let art = match a {
                        Asked::Force(art) => art,
                        Asked::Alloc(art, ..) => return Err(format!("an allocation of {:?} was traced as a demand of {}", art, rf::string_of_loc(&s.loc))),
                        x => return Err(format!("a demand of {} was traced where {:?} happened", rf::string_of_loc(&s.loc), x)),
                    };
                    ensure!(loc_of(art) == Some(s.loc.clone()), "a demand of {:?} was traced as one of {}", art, rf::string_of_loc(&s.loc));
                    let is_cell = self.held.get(art).map(|h| h.0);
                    match c {
                        ForceCase::RefGet => ensure!(is_cell == Some(true), "demand of thunk {:?} traced as that of a cell", art),
                        ForceCase::CompCacheMiss => {
                            ensure!(is_cell == Some(false), "demand of cell {:?} traced as that of a thunk", art);
                            ensure!(!self.cached.contains(&s.loc), "demand of {:?} traced as a miss, but it has a result", art);
                            nevals += 1;
                            *evals.entry(s.loc.clone()).or_insert(0) += 1;
                            self.cached.insert(s.loc.clone());
                        }
                        ForceCase::CompCacheHit => {
                            ensure!(is_cell == Some(false), "demand of cell {:?} traced as that of a thunk", art);
                            ensure!(self.cached.contains(&s.loc), "demand of {:?} traced as a hit, but it has no result", art);
                        }
                    }
                }
                Effect::Alloc(c, k) => {
                    let (_, s) = e.ok_or("an Alloc event without an edge")?;
                    ensure!(s.effect == rf::Effect::Alloc, "an Alloc event on an edge of another kind");
                    let (art, cell, content) = match asked.next() {
                        Some(Asked::Alloc(a, c, s)) => (a, *c, s),
                        x => return Err(format!("an allocation of {} was traced where {:?} happened", rf::string_of_loc(&s.loc), x)),
                    };
                    ensure!(loc_of(art) == Some(s.loc.clone()), "an allocation of {:?} was traced as one of {}", art, rf::string_of_loc(&s.loc));
                    ensure!(matches!(k, AllocKind::RefCell) == cell, "the allocation of {:?} was traced as of the wrong kind", art);
                    let prev = self.held.insert(art.clone(), (cell, content.clone()));
                    let want = match &prev {
                        None => "fresh",
                        Some(p) if *p == (cell, content.clone()) => "same",
                        _ => "changed",
                    };
                    if want == "changed" {
                        self.cached.remove(&s.loc);
                    }
                    let got = match c {
                        AllocCase::LocFresh => {
                            fresh.push(s.loc.clone());
                            "fresh"
                        }
                        AllocCase::LocExists(ChangeFlag::ContentSame) => "same",
                        AllocCase::LocExists(ChangeFlag::ContentDiff) => "changed",
                    };
                    ensure!(got == want, "allocation of {:?} was traced as {}, but it is {}", art, got, want);
                }
                Effect::Dirty => {
                    let (src, s) = e.ok_or("a Dirty event without an edge")?;
                    let src = src.ok_or("a Dirty event without a source")?;
                    ndirty += 1;
                    dirty.insert((src, s.loc.clone(), s.effect == rf::Effect::Alloc));
                }
                Effect::Remove => {
                    let (src, s) = e.ok_or("a Remove event without an edge")?;
                    let src = src.ok_or("a Remove event without a source")?;
                    removed.entry(src).or_default().push((s.loc.clone(), s.effect == rf::Effect::Alloc));
                    ensure!(t.extent.is_empty(), "a Remove event has an extent");
                }
                Effect::CleanRec => {
                    let ends = t.extent.iter().filter(|t| matches!(t.effect, Effect::CleanEdge | Effect::CleanEval) && edge(t).map(|x| (x.0, x.1.loc)) == e.as_ref().map(|x| (x.0.clone(), x.1.loc.clone()))).count();
                    ensure!(ends == 1, "a cleaning neither kept nor re-evaluated its edge");
                    ensure!(
                        matches!(t.extent.last().map(|t| &t.effect), Some(Effect::CleanEdge) | Some(Effect::CleanEval)),
                        "a cleaning does not end by keeping or re-evaluating"
                    );
                }
                Effect::CleanEdge => ensure!(t.extent.is_empty(), "a CleanEdge event has an extent"),
                Effect::Debug(n, m) => match asked.next() {
                    Some(Asked::Note(k, span)) => {
                        ensure!((n.clone(), m.clone()) == note(*k), "debugging event {} was traced as {:?}", k, (n, m));
                        ensure!(e.is_none(), "a debugging event has an edge");
                        if *span {
                            spans.insert(*t as *const Trace, *k);
                            self.spans += !t.extent.is_empty() as u64;
                        } else {
                            ensure!(t.extent.is_empty(), "debugging event {} has an extent", k);
                        }
                    }
                    x => return Err(format!("a debugging event was traced where {:?} happened", x)),
                },
            }
        }
        // Under demands, a set of an existing cell emits no event of its own.
        ensure!(asked.next().is_none(), "fewer events were traced than happened");
        let ran = self.real.total.get() - total0;
        ensure!(nevals == ran, "{} evaluations were traced, {} happened", nevals, ran);
        let mut f: Vec<String> = fresh.iter().map(|l| rf::string_of_loc(l)).collect();
        let mut g: Vec<String> = after.table.keys().filter(|l| !before.table.contains_key(l)).map(|l| rf::string_of_loc(l)).collect();
        f.sort();
        g.sort();
        ensure!(f == g, "fresh allocations traced: {:?}; locations that are new: {:?}", f, g);
        if !matches!(a, Act::Demand(..) | Act::All) {
            let (was, is) = (dirty_edges(&before), dirty_edges(&after));
            // Re-allocation as the other kind drops the edges of the
            // replaced computation; those are not cleaned, but gone.
            let new: HashSet<Edge> = is.difference(&was).cloned().collect();
            let told: HashSet<Edge> = dirty.difference(&was).cloned().collect();
            ensure!(
                new == told && dirty.len() == ndirty,
                "edges newly dirty: {:?}; traced as dirtied ({} events): {:?}",
                show_edges(&new),
                ndirty,
                show_edges(&dirty)
            );
            self.dirtied += new.len() as u64;
        }
        // Evaluating once removes just the edges that were there.
        if let Act::Demand(..) | Act::All = a {
            for (l, n) in &evals {
                if *n != 1 {
                    continue;
                }
                if let Some(rf::Node::Comp(c)) = before.table.get(l) {
                    let mut was: Vec<(rf::Loc, bool)> = c.succs.iter().map(|e| (e.loc.clone(), e.effect == rf::Effect::Alloc)).collect();
                    let mut told = removed.remove(l).unwrap_or_default();
                    let key = |x: &(rf::Loc, bool)| (rf::string_of_loc(&x.0), x.1);
                    was.sort_by_key(key);
                    told.sort_by_key(key);
                    ensure!(was == told, "re-evaluating {} removed {:?}, but {:?} was traced", rf::string_of_loc(l), was, told);
                }
            }
            for l in removed.keys() {
                ensure!(evals.contains_key(l), "edges of {} were traced as removed, but it did not run", rf::string_of_loc(l));
            }
        }
        // The counts of a trace are those of its events.
        check_counts(&tr)?;
        Ok(())
    }
}

/// The counts reported for a trace are those of its events.
pub fn check_counts(tr: &[rf::trace::Trace]) -> R {
    use rf::trace::{trace_count, AllocCase, AllocKind, ChangeFlag, Effect, EffectEdge, ForceCase, Trace};
    #[derive(Default, PartialEq, Debug)]
    struct C {
        fresh: (usize, usize),
        same: (usize, usize),
        diff: (usize, usize),
        dirty: (usize, usize),
        rec: usize,
        same_eval: usize,
        diff_eval: usize,
        demands: usize,
        spans: bool,
    }
    fn go(t: &Trace, arch: bool, c: &mut C) {
        let add = |x: &mut (usize, usize)| if arch { x.1 += 1 } else { x.0 += 1 };
        let mut inner = arch;
        match &t.effect {
            Effect::Alloc(AllocCase::LocFresh, _) => add(&mut c.fresh),
            Effect::Alloc(AllocCase::LocExists(ChangeFlag::ContentSame), _) => add(&mut c.same),
            Effect::Alloc(AllocCase::LocExists(ChangeFlag::ContentDiff), _) => add(&mut c.diff),
            Effect::Dirty => add(&mut c.dirty),
            Effect::CleanRec => c.rec += 1,
            Effect::CleanEval => {
                let changing = t.extent.iter().any(|t| {
                    matches!(
                        t.effect,
                        Effect::Alloc(AllocCase::LocFresh, _)
                            | Effect::Alloc(AllocCase::LocExists(ChangeFlag::ContentDiff), _)
                            | Effect::Force(ForceCase::CompCacheMiss)
                            | Effect::Dirty
                    )
                });
                if changing {
                    c.diff_eval += 1
                } else {
                    c.same_eval += 1
                }
            }
            Effect::Force(ForceCase::CompCacheHit) | Effect::Force(ForceCase::CompCacheMiss) => {
                if !arch {
                    c.demands += 1
                }
                inner = true
            }
            // What changes within the extent of a debugging event may or may
            // not count as a change by the re-evaluation around it.
            Effect::Debug(..) if !t.extent.is_empty() => c.spans = true,
            _ => (),
        }
        for t in t.extent.iter() {
            go(t, inner, c)
        }
    }
    let mut want = C::default();
    for t in tr {
        go(t, false, &mut want)
    }
    let t = trace_count(&tr.to_vec(), None);
    let mut got = C {
        spans: want.spans,
        fresh: t.alloc_fresh,
        same: t.alloc_nochange,
        diff: t.alloc_change,
        dirty: t.dirty,
        rec: t.clean_rec,
        same_eval: t.reeval_nochange,
        diff_eval: t.reeval_change,
        demands: t.total_archivist,
    };
    // As printed: each with its average over the updates.
    let updates = 1 + tr.len() % 5;
    let u = trace_count(&tr.to_vec(), if updates == 1 { None } else { Some(updates) });
    let lines: Vec<(String, String, String)> = format!("{:?}", u)
        .lines()
        .filter_map(|l| match l.split_whitespace().collect::<Vec<_>>()[..] {
            [n, sum, ave] if n.ends_with(':') => Some((n.to_string(), sum.to_string(), ave.to_string())),
            _ => None,
        })
        .collect();
    let rows = [
        ("alloc_fresh:", t.alloc_fresh.0),
        ("alloc_nochange:", t.alloc_nochange.0),
        ("alloc_change:", t.alloc_change.0),
        ("dirty:", t.dirty.0),
        ("alloc_fresh:", t.alloc_fresh.1),
        ("alloc_nochange:", t.alloc_nochange.1),
        ("alloc_change:", t.alloc_change.1),
        ("dirty:", t.dirty.1),
        ("clean_rec:", t.clean_rec),
        ("reeval_nochange:", t.reeval_nochange),
        ("reeval_change:", t.reeval_change),
    ];
    let printed: Vec<_> =
        rows.iter().map(|(n, k)| (n.to_string(), k.to_string(), format!("{:.2}", *k as f32 / updates as f32))).collect();
    ensure!(lines == printed, "the counts print as {:?} instead of {:?}", lines, printed);
    if want.spans {
        for c in [&mut got, &mut want] {
            c.same_eval += std::mem::take(&mut c.diff_eval)
        }
    }
    ensure!(got == want, "the counts of the trace are {:?}, but it has {:?}", got, want);
    Ok(())
}

pub fn show_edges(s: &HashSet<Edge>) -> Vec<String> {
    let mut v: Vec<String> =
        s.iter().map(|(a, b, k)| format!("{}{}{}", rf::string_of_loc(a), if *k { "=>" } else { "->" }, rf::string_of_loc(b))).collect();
    v.sort();
    v
}
