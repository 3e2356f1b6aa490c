//! A small language of incremental programs, the generator that decodes
//! them from tapes, and its interpreter, generic over an engine.

use crate::engs::Eng;
use crate::fw::{scale, zigzag, Tape};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::fmt::{self, Debug};
use std::hash::Hash;
use std::rc::Rc;

/// Names, as the interpreter sees them.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Nm {
    Unit,
    S(String),
    U(usize),
    I(isize),
    P(Rc<Nm>, Rc<Nm>),
    L(Rc<Nm>),
    R(Rc<Nm>),
}
impl Debug for Nm {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Nm::Unit => write!(f, "()"),
            Nm::S(s) => write!(f, "{}", s),
            Nm::U(u) => write!(f, "{}", u),
            Nm::I(i) => write!(f, "i{}", i),
            Nm::P(a, b) => write!(f, "<{:?}.{:?}>", a, b),
            Nm::L(a) => write!(f, "{:?}/l", a),
            Nm::R(a) => write!(f, "{:?}/r", a),
        }
    }
}
pub fn pair(a: Nm, b: Nm) -> Nm {
    Nm::P(Rc::new(a), Rc::new(b))
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum V<A> {
    I(i64),
    P(i64, i64),
    A(A),
}

/// Projections, for partial observations.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Proj {
    Id,
    Par,
    Sign,
    Fst,
    Snd,
    Half,
    Konst,
}
pub const PROJS: [Proj; 7] = [Proj::Par, Proj::Fst, Proj::Sign, Proj::Snd, Proj::Half, Proj::Konst, Proj::Id];

pub fn int<A>(v: &V<A>) -> i64 {
    match v {
        V::I(i) => *i,
        V::P(a, b) => a + 2 * b,
        V::A(_) => 9,
    }
}
pub fn proj<A>(p: Proj, v: &V<A>) -> i64 {
    match p {
        Proj::Id => match v {
            V::I(i) => *i,
            V::P(a, b) => 1000 + a * 100 + b,
            V::A(_) => 9,
        },
        Proj::Par => int(v).rem_euclid(2),
        Proj::Sign => int(v).signum(),
        Proj::Fst => match v {
            V::P(a, _) => *a,
            _ => int(v),
        },
        Proj::Snd => match v {
            V::P(_, b) => *b,
            _ => 0,
        },
        Proj::Half => int(v).div_euclid(2),
        Proj::Konst => 4,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Obs {
    Full,
    Map(Proj),
    Abs(Proj),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Min,
    Max,
    Eq,
    Lt,
    Mul,
    Mod,
}
const OPS: [Op; 8] = [Op::Add, Op::Max, Op::Min, Op::Eq, Op::Mul, Op::Lt, Op::Sub, Op::Mod];

/// How a call or allocation site names what it allocates.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Naming {
    /// By the site, paired with the name of the enclosing thunk.
    Site,
    /// By forking the name of the enclosing thunk (the site's bits).
    Fork,
    /// By the function and its (integer) argument, or by the (integer)
    /// content of a cell; shared among sites.
    ByArg,
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum X {
    K(i64),
    Param,
    Slot(usize, Obs),
    Bin(Op, Box<X>, Box<X>),
    If(Box<X>, Box<X>, Box<X>),
    Pair(Box<X>, Box<X>),
    Call(usize, Naming, usize, Box<X>, Obs),
    Rec(usize, Naming),
    LetCell(usize, Naming, Box<X>, Box<X>),
    LetThunk(usize, Naming, usize, Box<X>, Box<X>),
    /// Site, guard, rank: a cell under a name that several thunks share, of
    /// which the guarding slot selects the one to allocate it.
    LetShared(usize, usize, usize, Box<X>, Box<X>),
    Local(usize, Obs),
    RetLocal(usize),
    Deref(Box<X>, Obs),
    Ns(usize, Box<X>),
    Struct(Box<X>),
}
impl Debug for X {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fn o(o: &Obs) -> String {
            match o {
                Obs::Full => "".into(),
                Obs::Map(p) => format!("|{:?}", p),
                Obs::Abs(p) => format!("|abs {:?}", p),
            }
        }
        match self {
            X::K(i) => write!(f, "{}", i),
            X::Param => write!(f, "p"),
            X::Slot(i, ob) => write!(f, "!s{}{}", i, o(ob)),
            X::Bin(op, a, b) => write!(f, "{:?}({:?},{:?})", op, a, b),
            X::If(c, a, b) => write!(f, "if({:?}>0){{{:?}}}else{{{:?}}}", c, a, b),
            X::Pair(a, b) => write!(f, "({:?},{:?})", a, b),
            X::Call(s, n, g, a, ob) => write!(f, "memo@{}{:?} f{}({:?}){}", s, n, g, a, o(ob)),
            X::Rec(s, n) => write!(f, "memo@{}{:?} self(p-1)", s, n),
            X::LetCell(s, n, v, b) => write!(f, "let l=cell@{}{:?}({:?}) in {:?}", s, n, v, b),
            X::LetThunk(s, n, g, v, b) => write!(f, "let l=thunk@{}{:?} f{}({:?}) in {:?}", s, n, g, v, b),
            X::LetShared(s, g, k, v, b) => {
                write!(f, "let l=cell@(if s{}%{}=={}{{shared{}}}else{{{}}})({:?}) in {:?}", g, RANKS, k, g, s, v, b)
            }
            X::Local(i, ob) => write!(f, "!l{}{}", i, o(ob)),
            X::RetLocal(i) => write!(f, "&l{}", i),
            X::Deref(e, ob) => write!(f, "!({:?}){}", e, o(ob)),
            X::Ns(k, e) => write!(f, "ns{}{{{:?}}}", k, e),
            X::Struct(e) => write!(f, "structural{{{:?}}}", e),
        }
    }
}

pub const MAXSLOT: usize = 16;
/// How many thunks share a name.
pub const RANKS: usize = 3;

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Fun {
    pub body: X,
    /// May be called only where slots below `cap` may be read.
    pub cap: usize,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Prog {
    pub ncells: usize,
    pub init: Vec<V<()>>,
    pub slots: Vec<X>,
    pub funs: Vec<Fun>,
    pub names: Vec<Nm>,
}
impl Debug for Prog {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for i in 0..self.slots.len() {
            if i < self.ncells {
                write!(f, "s{}:cell[{:?}]={:?}; ", i, self.names[i], self.init[i])?;
            }
            if i >= self.ncells || self.slots[i] != X::K(0) {
                write!(f, "s{}:thunk[{:?}]={:?}; ", i, self.names[i], self.slots[i])?;
            }
        }
        for (i, g) in self.funs.iter().enumerate() {
            write!(f, "f{}(p)={:?}; ", i, g.body)?;
        }
        Ok(())
    }
}

/// What the generator may use.
#[derive(Clone, Copy)]
pub struct Cfg {
    pub map: usize,
    pub abs: usize,
    pub alloc: usize,
    pub ns: usize,
    pub structural: usize,
    pub arts: usize,
    pub kind_change: bool,
    pub reparam: bool,
    pub shared: usize,
    pub maxslots: usize,
    pub depth: usize,
}
pub const BASIC: Cfg = Cfg {
    map: 0,
    abs: 0,
    alloc: 0,
    ns: 0,
    structural: 0,
    arts: 0,
    kind_change: false,
    reparam: true,
    shared: 0,
    maxslots: 9,
    depth: 4,
};

struct Gen<'a, 'b> {
    t: &'a mut Tape<'b>,
    cfg: Cfg,
    site: usize,
    /// Slots below this may be read.
    lim: usize,
    /// Functions that may be called here.
    callable: Vec<usize>,
    locals: usize,
    in_fun: bool,
    tree: usize,
    ncells: usize,
    ranks: &'a mut [usize],
}
impl<'a, 'b> Gen<'a, 'b> {
    fn obs(&mut self) -> Obs {
        let (m, a) = (self.cfg.map, self.cfg.abs);
        match self.t.weighted(&[10, m, a]) {
            0 => Obs::Full,
            k => {
                let p = PROJS[self.t.below(PROJS.len())];
                if k == 1 {
                    Obs::Map(p)
                } else {
                    Obs::Abs(p)
                }
            }
        }
    }
    fn naming(&mut self) -> Naming {
        match self.t.below(4) {
            0 | 1 => Naming::Site,
            2 => Naming::ByArg,
            _ => Naming::Fork,
        }
    }
    fn gen(&mut self, depth: usize) -> X {
        let c = self.cfg;
        let read = if self.lim > 0 { 10 } else { 0 };
        let inner = if depth > 0 && self.tree > 0 { 1 } else { 0 };
        let calls = if self.callable.is_empty() { 0 } else { c.alloc };
        let ws = [
            2,                                                    // 0 K
            read + if inner == 0 { read } else { 0 },             // 1 Slot
            if self.in_fun { 4 } else { 1 },                      // 2 Param
            inner * 9,                                            // 3 Bin
            inner * 6,                                            // 4 If
            inner * if c.map + c.abs > 0 { 2 } else { 1 },        // 5 Pair
            inner * calls * 2,                                    // 6 Call
            if self.in_fun { inner * c.alloc } else { 0 },        // 7 Rec
            inner * c.alloc,                                      // 8 LetCell
            inner * calls,                                        // 9 LetThunk
            if self.locals > 0 { 6 } else { 0 },                  // 10 Local
            if self.locals > 0 { c.arts } else { 0 },             // 11 RetLocal
            inner * c.arts,                                       // 12 Deref
            inner * c.ns,                                         // 13 Ns
            inner * c.structural,                                 // 14 Struct
            if self.in_fun || self.lim == 0 { 0 } else { inner * c.shared }, // 15 LetShared
        ];
        let k = self.t.weighted(&ws);
        self.tree = self.tree.saturating_sub(1);
        let d = depth.saturating_sub(1);
        match k {
            0 => X::K(self.t.small(3)),
            1 => {
                let i = self.lim - 1 - self.t.below(self.lim);
                let o = self.obs();
                X::Slot(i, o)
            }
            2 => X::Param,
            3 => {
                let op = OPS[self.t.below(OPS.len())];
                let a = self.gen(d);
                let b = self.gen(d);
                X::Bin(op, Box::new(a), Box::new(b))
            }
            4 => {
                let a = self.gen(d);
                let b = self.gen(d);
                let e = self.gen(d);
                X::If(Box::new(a), Box::new(b), Box::new(e))
            }
            5 => {
                let a = self.gen(d);
                let b = self.gen(d);
                X::Pair(Box::new(a), Box::new(b))
            }
            6 => {
                let g = self.callable[self.t.below(self.callable.len())];
                let nm = self.naming();
                self.site += 1;
                let s = self.site;
                let a = self.gen(d);
                let o = self.obs();
                X::Call(s, nm, g, Box::new(a), o)
            }
            7 => {
                self.site += 1;
                let s = self.site;
                X::Rec(s, self.naming())
            }
            8 => {
                let nm = self.naming();
                self.site += 1;
                let s = self.site;
                let v = self.gen(d);
                self.locals += 1;
                let b = self.gen(d);
                self.locals -= 1;
                X::LetCell(s, nm, Box::new(v), Box::new(b))
            }
            9 => {
                let g = self.callable[self.t.below(self.callable.len())];
                let nm = self.naming();
                self.site += 1;
                let s = self.site;
                let v = self.gen(d);
                self.locals += 1;
                let b = self.gen(d);
                self.locals -= 1;
                X::LetThunk(s, nm, g, Box::new(v), Box::new(b))
            }
            10 => {
                let i = self.t.below(self.locals);
                let o = self.obs();
                X::Local(i, o)
            }
            11 => X::RetLocal(self.t.below(self.locals)),
            12 => {
                let e = self.gen(d);
                let o = self.obs();
                X::Deref(Box::new(e), o)
            }
            13 => {
                let k = self.t.below(3);
                let e = self.gen(d);
                X::Ns(k, Box::new(e))
            }
            14 => {
                let e = self.gen(d);
                X::Struct(Box::new(e))
            }
            _ => {
                let g = self.t.below(self.ncells.min(self.lim));
                self.site += 1;
                let s = self.site;
                let v = self.gen(d);
                self.locals += 1;
                let b = self.gen(d);
                self.locals -= 1;
                let k = self.ranks[g];
                self.ranks[g] += 1;
                if k < RANKS {
                    X::LetShared(s, g, k, Box::new(v), Box::new(b))
                } else {
                    X::LetCell(s, Naming::Site, Box::new(v), Box::new(b))
                }
            }
        }
    }
}

pub fn slot_name(i: usize, form: usize) -> Nm {
    let base = Nm::S(format!("s{}", i));
    match form {
        0 => base,
        1 => Nm::U(i),
        2 => Nm::I(-1 - i as isize),
        3 => pair(Nm::Unit, Nm::U(i)),
        4 => Nm::L(Rc::new(base)),
        _ => Nm::R(Rc::new(base)),
    }
}

pub fn decode_prog(t: &mut Tape, cfg: Cfg) -> Prog {
    let ncells = 1 + t.below(4);
    let nth = 1 + t.below(cfg.maxslots - 3);
    let n = ncells + nth;
    let nfuns = if cfg.alloc > 0 { 1 + t.below(3) } else { 0 };
    let names = (0..n).map(|i| slot_name(i, t.below(12).saturating_sub(6))).collect();
    let init = (0..ncells).map(|_| gen_val(t.raw(), t.raw())).collect();
    let caps: Vec<usize> = (0..nfuns).map(|_| t.below(n)).collect();
    let mut slots = vec![X::K(0); n];
    let mut funs = vec![Fun { body: X::K(0), cap: 0 }; nfuns];
    let mut site = 0;
    let mut ranks = vec![0; ncells];
    // The topmost slots come first on the tape.
    for i in (0..n).rev() {
        if i < ncells && !cfg.kind_change {
            continue;
        }
        let callable = (0..nfuns).filter(|g| caps[*g] <= i).collect();
        let mut g = Gen { t, cfg, site, lim: i, callable, locals: 0, in_fun: false, tree: 14, ncells, ranks: &mut ranks };
        slots[i] = g.gen(cfg.depth);
        site = g.site;
        if i == ncells + nth / 2 || nth == 1 {
            // Functions in the middle of the tape.
            for j in 0..nfuns {
                if funs[j].body != X::K(0) {
                    continue;
                }
                let callable = (0..nfuns).filter(|g| *g > j && caps[*g] <= caps[j]).collect();
                let mut g = Gen { t, cfg, site, lim: caps[j], callable, locals: 0, in_fun: true, tree: 9, ncells, ranks: &mut ranks };
                funs[j] = Fun { body: g.gen(cfg.depth - 1), cap: caps[j] };
                site = g.site;
            }
        }
    }
    Prog { ncells, init, slots, funs, names }
}

pub fn gen_val(a: u16, b: u16) -> V<()> {
    let k = scale(a, 4);
    if k < 3 {
        V::I(zigzag(scale(b, 9)))
    } else {
        V::P(zigzag(scale(a.wrapping_mul(31), 5)), zigzag(scale(b, 5)))
    }
}
pub fn val<A>(v: &V<()>) -> V<A> {
    match v {
        V::I(i) => V::I(*i),
        V::P(a, b) => V::P(*a, *b),
        V::A(()) => V::I(9),
    }
}

/// The argument of every interpreted thunk.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct TArg<A> {
    pub fun: usize,
    pub inst: Nm,
    pub param: V<A>,
}

pub struct Ctx<E: Eng> {
    pub prog: Rc<Prog>,
    pub eng: E,
    pub slots: RefCell<Vec<E::Art>>,
    pub counts: RefCell<HashMap<(usize, Nm), u32>>,
    pub total: Cell<u64>,
    pub fuel: Cell<u64>,
    /// Structural mode throughout: arguments carry no instance names.
    pub anon: bool,
}
impl<E: Eng> Ctx<E> {
    pub fn new(prog: &Rc<Prog>, eng: E, anon: bool) -> Rc<Self> {
        Rc::new(Ctx {
            prog: prog.clone(),
            eng,
            slots: RefCell::new(vec![]),
            counts: RefCell::new(HashMap::new()),
            total: Cell::new(0),
            fuel: Cell::new(200_000),
            anon,
        })
    }
    pub fn slot(&self, i: usize) -> E::Art {
        self.slots.borrow()[i].clone()
    }
}

pub struct Frame<A> {
    pub fun: usize,
    pub inst: Nm,
    pub param: V<A>,
    pub locals: Vec<A>,
}

pub const OUT_OF_FUEL: &str = "runaway: too many executions of user code";

/// The body of every thunk.
pub fn run_thunk<E: Eng>(cx: &Rc<Ctx<E>>, arg: TArg<E::Art>) -> V<E::Art> {
    let f = cx.fuel.get();
    if f == 0 {
        panic!("{}", OUT_OF_FUEL)
    }
    cx.fuel.set(f - 1);
    cx.total.set(cx.total.get() + 1);
    *cx.counts.borrow_mut().entry((arg.fun, arg.inst.clone())).or_insert(0) += 1;
    let prog = cx.prog.clone();
    let body = if arg.fun < MAXSLOT { &prog.slots[arg.fun] } else { &prog.funs[arg.fun - MAXSLOT].body };
    let mut fr = Frame { fun: arg.fun, inst: arg.inst, param: arg.param, locals: vec![] };
    eval(cx, &mut fr, body)
}

fn site_name<A>(fr: &Frame<A>, s: usize, nm: Naming) -> Nm {
    match nm {
        Naming::Fork => {
            // A distinct leaf of the tree of forks of the instance name.
            let mut n = Nm::L(Rc::new(fr.inst.clone()));
            for k in 0..8 {
                n = if (s >> k) & 1 == 1 { Nm::R(Rc::new(n)) } else { Nm::L(Rc::new(n)) }
            }
            n
        }
        _ => pair(Nm::U(1000 + s), fr.inst.clone()),
    }
}

fn mk_thunk<E: Eng>(cx: &Rc<Ctx<E>>, fr: &Frame<E::Art>, s: usize, nm: Naming, g: usize, a: V<E::Art>) -> E::Art {
    let (nm, a) = match nm {
        Naming::ByArg => {
            let k = int(&a).rem_euclid(5) - 2;
            (pair(Nm::S(format!("f{}", g)), Nm::I(k as isize)), V::I(k))
        }
        n => (site_name(fr, s, n), a),
    };
    let inst = if cx.anon { Nm::Unit } else { nm.clone() };
    E::thunk(cx, &nm, TArg { fun: g, inst, param: a })
}

fn clamp(i: i64) -> i64 {
    i % 51
}

pub fn eval<E: Eng>(cx: &Rc<Ctx<E>>, fr: &mut Frame<E::Art>, x: &X) -> V<E::Art> {
    match x {
        X::K(i) => V::I(*i),
        X::Param => fr.param.clone(),
        X::Slot(i, o) => {
            let a = cx.slot(*i);
            cx.eng.observe(&a, *o)
        }
        X::Bin(op, a, b) => {
            let a = int(&eval(cx, fr, a));
            let b = int(&eval(cx, fr, b));
            V::I(clamp(match op {
                Op::Add => a + b,
                Op::Sub => a - b,
                Op::Min => a.min(b),
                Op::Max => a.max(b),
                Op::Eq => (a == b) as i64,
                Op::Lt => (a < b) as i64,
                Op::Mul => a * b,
                Op::Mod => a.rem_euclid(2 + b.abs() % 2),
            }))
        }
        X::If(c, a, b) => {
            if int(&eval(cx, fr, c)) > 0 {
                eval(cx, fr, a)
            } else {
                eval(cx, fr, b)
            }
        }
        X::Pair(a, b) => {
            let a = int(&eval(cx, fr, a));
            let b = int(&eval(cx, fr, b));
            V::P(a, b)
        }
        X::Call(s, nm, g, a, o) => {
            let a = eval(cx, fr, a);
            let t = mk_thunk(cx, fr, *s, *nm, MAXSLOT + g, a);
            cx.eng.observe(&t, *o)
        }
        X::Rec(s, nm) => match fr.param {
            V::I(p) if p > 0 => {
                let t = mk_thunk(cx, fr, *s, *nm, fr.fun, V::I(p.min(3) - 1));
                cx.eng.observe(&t, Obs::Full)
            }
            _ => V::I(1),
        },
        X::LetCell(s, nm, v, b) => {
            let v = eval(cx, fr, v);
            let (n, v) = match nm {
                // All that allocate it agree about its content.
                Naming::ByArg => {
                    let k = int(&v).rem_euclid(5) - 2;
                    (pair(Nm::S("cell".into()), Nm::I(k as isize)), V::I(k))
                }
                nm => (site_name(fr, *s, *nm), v),
            };
            let c = cx.eng.cell(&n, v);
            fr.locals.push(c);
            let r = eval(cx, fr, b);
            fr.locals.pop();
            r
        }
        X::LetShared(s, g, k, v, b) => {
            let who = int(&cx.eng.observe(&cx.slot(*g), Obs::Full)).rem_euclid(RANKS as i64);
            let v = eval(cx, fr, v);
            let n = if who == *k as i64 { pair(Nm::S("shared".into()), Nm::U(*g)) } else { site_name(fr, *s, Naming::Site) };
            let c = cx.eng.cell(&n, v);
            fr.locals.push(c);
            let r = eval(cx, fr, b);
            fr.locals.pop();
            r
        }
        X::LetThunk(s, nm, g, v, b) => {
            let v = eval(cx, fr, v);
            let c = mk_thunk(cx, fr, *s, *nm, MAXSLOT + g, v);
            fr.locals.push(c);
            let r = eval(cx, fr, b);
            fr.locals.pop();
            r
        }
        X::Local(i, o) => match fr.locals.get(*i).cloned() {
            None => V::I(0),
            Some(a) => cx.eng.observe(&a, *o),
        },
        X::RetLocal(i) => match fr.locals.get(*i).cloned() {
            None => V::I(0),
            Some(a) => V::A(a),
        },
        X::Deref(e, o) => match eval(cx, fr, e) {
            V::A(a) => cx.eng.observe(&a, *o),
            v => v,
        },
        X::Ns(k, e) => {
            let eng = &cx.eng;
            eng.ns(&Nm::U(500 + k), || eval(cx, fr, e))
        }
        X::Struct(e) => {
            let eng = &cx.eng;
            eng.structural(|| eval(cx, fr, e))
        }
    }
}

/// Forces through articulations, to a value free of them.
pub fn resolve<E: Eng>(cx: &Rc<Ctx<E>>, v: V<E::Art>) -> V<()> {
    let mut v = v;
    for _ in 0..40 {
        match v {
            V::I(i) => return V::I(i),
            V::P(a, b) => return V::P(a, b),
            V::A(a) => v = cx.eng.observe(&a, Obs::Full),
        }
    }
    V::I(-99)
}

/// Counts the constructs of a program that a predicate selects.
pub fn count(x: &X, f: &dyn Fn(&X) -> bool) -> usize {
    let rest = match x {
        X::Bin(_, a, b) | X::Pair(a, b) | X::LetCell(_, _, a, b) | X::LetThunk(_, _, _, a, b) | X::LetShared(_, _, _, a, b) => count(a, f) + count(b, f),
        X::If(a, b, c) => count(a, f) + count(b, f) + count(c, f),
        X::Call(_, _, _, a, _) | X::Deref(a, _) | X::Ns(_, a) | X::Struct(a) => count(a, f),
        _ => 0,
    };
    rest + f(x) as usize
}
pub fn count_prog(p: &Prog, f: &dyn Fn(&X) -> bool) -> usize {
    p.slots.iter().map(|x| count(x, f)).sum::<usize>() + p.funs.iter().map(|g| count(&g.body, f)).sum::<usize>()
}
