//! C15: reflection as a round trip.

use crate::engs::name;
use crate::fw::*;
use crate::lang::Nm;
use crate::p_names::STRS;
use adapton::engine::*;
use adapton::macros::ProgPt;
use adapton::parse_val::parse_val;
use adapton::reflect as rf;
use adapton::reflect::{ArtContent, Const, Val};
use std::cell::RefCell;
use std::fmt::{self, Debug};
use std::rc::Rc;

/// Values, whose `Debug` output is that of the Rust values they stand for.
#[derive(Clone, PartialEq, Eq, Hash)]
enum T {
    I(i64),
    U(u64),
    S(String),
    B(bool),
    C(&'static str, Vec<T>),
    St(&'static str, Vec<(&'static str, T)>),
    Tup(Vec<T>),
    L(Vec<T>),
    N(NameOf),
    A(ArtOf),
    /// A native (unnamed, uncached) thunk of its argument.
    F(Art<T>, Box<T>),
}
#[derive(Clone)]
struct NameOf(Nm, Name);
#[derive(Clone)]
struct ArtOf(Art<T>, rf::Loc, bool);
impl PartialEq for NameOf {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for NameOf {}
impl std::hash::Hash for NameOf {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl PartialEq for ArtOf {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for ArtOf {}
impl std::hash::Hash for ArtOf {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl Debug for T {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            T::I(i) => i.fmt(f),
            T::U(u) => u.fmt(f),
            T::S(s) => s.fmt(f),
            T::B(b) => b.fmt(f),
            T::C(c, ts) => {
                let mut d = f.debug_tuple(c);
                for t in ts {
                    d.field(t);
                }
                d.finish()
            }
            T::St(c, fs) => {
                let mut d = f.debug_struct(c);
                for (n, t) in fs {
                    d.field(n, t);
                }
                d.finish()
            }
            T::Tup(ts) => {
                if ts.is_empty() {
                    return ().fmt(f);
                }
                let mut d = f.debug_tuple("");
                for t in ts {
                    d.field(t);
                }
                d.finish()
            }
            T::L(ts) => f.debug_list().entries(ts.iter()).finish(),
            T::N(n) => n.1.fmt(f),
            T::A(a) => a.0.fmt(f),
            T::F(a, _) => a.fmt(f),
        }
    }
}

fn expect(t: &T) -> Val {
    let c = |s: &str| name_of_string(s.to_string());
    let all = |ts: &Vec<T>| ts.iter().map(expect).collect::<Vec<_>>();
    match t {
        T::I(i) if *i < 0 => Val::Const(Const::Num(*i as isize)),
        T::I(i) => Val::Const(Const::Nat(*i as usize)),
        T::U(u) => Val::Const(Const::Nat(*u as usize)),
        T::S(s) => Val::Const(Const::String(s.clone())),
        T::B(b) => Val::Constr(c(if *b { "true" } else { "false" }), vec![]),
        T::C(n, ts) => Val::Constr(c(n), all(ts)),
        T::St(n, fs) if fs.is_empty() => Val::Constr(c(n), vec![]),
        T::St(n, fs) => Val::Struct(c(n), fs.iter().map(|(n, t)| (c(n), expect(t))).collect()),
        T::Tup(ts) => Val::Tuple(all(ts)),
        T::L(ts) => Val::Vec(all(ts)),
        T::N(NameOf(Nm::Unit, _)) => Val::Constr(c("Unit"), vec![]),
        T::N(n) => Val::Name(n.1.clone()),
        T::A(a) => Val::Art(a.1.clone(), ArtContent::Unknown),
        T::F(_, v) => {
            let fs = vec![(c("id"), Val::Constr(c("Naive"), vec![])), (c("prog_pt"), Val::Const(Const::String("p::native".into()))), (c("arg"), expect(v))];
            Val::Struct(c("Art"), vec![(c("art"), Val::Struct(c("NaiveThunk"), fs))])
        }
    }
}
/// A bare unit name prints like a constructor without arguments; both
/// readings are right.
fn norm(v: &Val) -> Val {
    let all = |vs: &Vec<Val>| vs.iter().map(norm).collect::<Vec<_>>();
    match v {
        Val::Name(n) if *n == name_unit() => Val::Constr(name_of_str("Unit"), vec![]),
        Val::Constr(n, vs) => Val::Constr(n.clone(), all(vs)),
        Val::Tuple(vs) => Val::Tuple(all(vs)),
        Val::Vec(vs) => Val::Vec(all(vs)),
        Val::Struct(n, fs) => Val::Struct(n.clone(), fs.iter().map(|(n, v)| (n.clone(), norm(v))).collect()),
        v => v.clone(),
    }
}

const CONS: [&str; 12] = ["Nil", "Cons", "Some", "None", "A1", "_x", "Node_2", "art", "Pairs", "Loc", "Art", "T"];
/// Names of symbols, with arguments that no symbol has.
const NEAR: [&str; 4] = ["Pair", "ForkL", "ForkR", "String"];
const FIELDS: [&str; 8] = ["a", "b", "path", "id", "art", "x_1", "_y", "value"];
const CHARS: [&str; 28] = [
    "a", "Z", "0", " ", "\"", "\\", "\n", "\t", "\r", "\0", "\u{7f}", "\u{1b}", "é", "日", "\u{301}", "\u{200b}", "😀", "'", "{", "}", "[", "]", "(",
    ")", ",", ":", "-", "\u{feff}",
];

/// An identifier: any that Rust allows (and `Debug` prints).
fn ident(t: &mut Tape, common: &[&'static str]) -> &'static str {
    if t.chance(2, 3) {
        return common[t.below(common.len())];
    }
    thread_local!(static SEEN: RefCell<std::collections::HashSet<&'static str>> = RefCell::new(Default::default()));
    const FIRST: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_éñßΔж日नಠ";
    const REST: &str = "0123456789\u{94d}\u{301}٣";
    let first: Vec<char> = FIRST.chars().collect();
    let rest: Vec<char> = FIRST.chars().chain(REST.chars()).collect();
    let mut s = first[t.below(first.len())].to_string();
    let k = match t.weighted(&[3, 3, 3, 2, 2, 1, 1, 1]) {
        7 => 7 + t.below(70),
        k => k,
    };
    for _ in 0..k {
        // Digits as often as letters.
        let c = if t.chance(1, 2) { rest[first.len() + t.below(rest.len() - first.len())] } else { rest[t.below(rest.len())] };
        s.push(c)
    }
    // Alone, an underscore is no identifier.
    if s == "_" {
        s.push('_')
    }
    SEEN.with(|h| {
        if let Some(x) = h.borrow().get(s.as_str()) {
            return *x;
        }
        let x: &'static str = Box::leak(s.into_boxed_str());
        h.borrow_mut().insert(x);
        x
    })
}
fn text(t: &mut Tape) -> String {
    let n = match t.weighted(&[8, 16, 16, 16, 8, 8, 8, 1]) {
        7 => 7 + t.below(300),
        n => n,
    };
    // Long ones repeat what they began with.
    let (n, again) = if n > 6 { (6, n / 6) } else { (n, 1) };
    (0..n)
        .map(|_| {
            if t.chance(1, 8) {
                char::from_u32((t.raw() as u32 * 17 + 5) % 0x110000).unwrap_or('x').to_string()
            } else {
                CHARS[t.below(CHARS.len())].to_string()
            }
        })
        .collect::<String>()
        .repeat(again)
}
fn a_name(t: &mut Tape, d: usize) -> Nm {
    let k = if d == 0 { t.below(4) } else { t.below(7) };
    match k {
        0 => Nm::S(STRS[t.below(STRS.len())].into()),
        1 => Nm::U(if t.chance(1, 6) { usize::MAX } else { t.below(10) }),
        2 => Nm::I(if t.chance(1, 6) { isize::MIN } else { t.small(5) as isize }),
        3 => {
            if t.chance(1, 2) {
                Nm::Unit
            } else {
                Nm::S(text(t))
            }
        }
        4 => Nm::P(Rc::new(a_name(t, d - 1)), Rc::new(a_name(t, d - 1))),
        5 => Nm::L(Rc::new(a_name(t, d - 1))),
        _ => Nm::R(Rc::new(a_name(t, d - 1))),
    }
}
fn value(t: &mut Tape, d: usize, arts: &[ArtOf], budget: &mut usize) -> T {
    *budget = budget.saturating_sub(1);
    let r = if d > 0 && *budget > 0 { 1 } else { 0 };
    let has = !arts.is_empty() as usize;
    let many = |t: &mut Tape, b: &mut usize| -> Vec<T> { (0..t.below(4)).map(|_| value(t, d.saturating_sub(1), arts, b)).collect() };
    match t.weighted(&[3, 1, 3, 1, 4 * r, 4 * r, 2 * r, 3 * r, 2, 3 * has, r, r]) {
        0 => T::I(match t.below(10) {
            0 => i64::MIN,
            1 => i64::MAX,
            _ => t.small(20),
        }),
        1 => T::U(if t.chance(1, 3) { u64::MAX } else { t.raw() as u64 }),
        2 => T::S(text(t)),
        3 => T::B(t.chance(1, 2)),
        4 => {
            let c = ident(t, &CONS);
            T::C(c, many(t, budget))
        }
        5 => {
            let ts = many(t, budget);
            let k = t.below(FIELDS.len());
            let fs: Vec<(&'static str, T)> = ts.into_iter().enumerate().map(|(i, x)| (FIELDS[(k + i) % FIELDS.len()], x)).collect();
            let mut fs = fs;
            for f in fs.iter_mut() {
                f.0 = ident(t, &[f.0])
            }
            T::St(ident(t, &CONS), fs)
        }
        6 => T::Tup(many(t, budget)),
        7 if t.chance(1, 12) => {
            // Many parts, here or in what else has parts.
            let n = 4 + t.below(40);
            let ts: Vec<T> = (0..n).map(|_| value(t, 0, arts, budget)).collect();
            match t.below(3) {
                0 => T::L(ts),
                1 => T::C(ident(t, &CONS), ts),
                _ => T::Tup(ts),
            }
        }
        7 => T::L(many(t, budget)),
        8 => {
            let n = a_name(t, 3);
            let m = name(&n);
            T::N(NameOf(n, m))
        }
        9 => T::A(arts[t.below(arts.len())].clone()),
        11 => {
            let v = value(t, d - 1, arts, budget);
            let pt = ProgPt { symbol: "p::native" };
            T::F(thunk(NameChoice::Naive, pt, Rc::new(Box::new(|v: T, ()| v)), v.clone(), ()), Box::new(v))
        }
        _ => T::C(NEAR[t.below(4)], (0..2).map(|_| T::I(t.small(3))).collect()),
    }
}
/// Chains of constructors, deep in one place.
fn deepen(t: &mut Tape, x: T) -> T {
    let n = if t.chance(1, 20) { 60 + t.below(150) } else { t.below(60) };
    let k = t.below(5);
    (0..n).fold(x, |x, i| match (k + i * (k & 1)) % 5 {
        0 => T::C("Cons", vec![T::I(i as i64), x]),
        1 => T::St("Node", vec![("left", x), ("right", T::C("Nil", vec![]))]),
        2 => T::Tup(vec![x, T::B(true)]),
        3 => T::L(vec![x]),
        _ => T::C("Some", vec![x]),
    })
}
fn count(t: &T, f: &dyn Fn(&T) -> bool) -> usize {
    f(t) as usize
        + match t {
            T::C(_, ts) | T::Tup(ts) | T::L(ts) => ts.iter().map(|t| count(t, f)).sum(),
            T::St(_, fs) => fs.iter().map(|(_, t)| count(t, f)).sum(),
            T::F(_, t) => count(t, f),
            _ => 0,
        }
}
/// Only articulations at locations are expected to reflect as such; and a
/// struct must not look like one.
fn ok(t: &T) -> bool {
    count(t, &|t| match t {
        // `Art { art: Loc { path, id } }` is how an articulation prints.
        T::St("Art", fs) => fs.len() == 1 && fs[0].0 == "art" && matches!(fs[0].1, T::St("Loc", _)),
        _ => false,
    }) == 0
}

thread_local!(static INSIDE: RefCell<Vec<(rf::DCG, rf::Loc)>> = RefCell::new(vec![]));

fn same(what: &dyn Fn() -> String, got: &Val, want: &T) -> R {
    let (g, w) = (norm(got), norm(&expect(want)));
    ensure!(g == w, "{} reflects as {:?} instead of {:?}", what(), g, w);
    Ok(())
}

enum Held {
    Cell(T),
    /// The result, and whether it was demanded.
    Thunk(T, bool),
}

fn c15(c: &Case, cx: &mut Cx) -> R {
    manage::init_dcg();
    let mut t = Tape::new(&c.a);
    let mut arts: Vec<ArtOf> = vec![];
    let mut held: Vec<(rf::Loc, Held)> = vec![];
    let mut used: Vec<(Vec<Nm>, Nm)> = vec![];
    let n = 1 + t.below(5);
    let recording = t.chance(1, 4);
    if recording {
        rf::dcg_reflect_begin();
    }
    for i in 0..n {
        let mut b = 30;
        let mut v = value(&mut t, 4, &arts, &mut b);
        if t.chance(1, 4) {
            v = deepen(&mut t, v)
        }
        if !ok(&v) {
            continue;
        }
        cx.digest(&format!("{:?}", v));
        cx.show(|| format!("{:?}", v));
        same(&|| format!("{:?}", v), &parse_val(&v), &v)?;
        same(&|| format!("{:?}", v), &rf::reflect_val(&v), &v)?;
        cx.label_if(count(&v, &|t| matches!(t, T::A(_))) > 0, "holds articulations");
        cx.label_if(count(&v, &|t| matches!(t, T::N(_))) > 0, "holds names");
        cx.label_if(count(&v, &|t| matches!(t, T::F(..))) > 0, "holds native thunks");
        cx.label_if(count(&v, &|t| matches!(t, T::C(c, _) | T::St(c, _) if !c.is_ascii())) > 0, "identifiers beyond ASCII");
        cx.label_if(count(&v, &|t| matches!(t, T::S(s) if s.chars().any(|c| "\"\\\n'{}".contains(c) || !c.is_ascii()))) > 0, "awkward strings");
        cx.label_if(count(&v, &|_| true) > 40, "large values");
        if count(&v, &|t| !matches!(t, T::I(_) | T::U(_) | T::B(_))) > 1 {
            cx.nontrivial = true
        }
        // Held by an articulation at a random location.
        let levels = if t.chance(1, 15) { 3 + t.below(20) } else { t.weighted(&[4, 2, 1]) };
        let path: Vec<Nm> = (0..levels).map(|_| a_name(&mut t, 2)).collect();
        let mut nm = a_name(&mut t, 2);
        while used.contains(&(path.clone(), nm.clone())) {
            nm = Nm::L(Rc::new(nm))
        }
        used.push((path.clone(), nm.clone()));
        let loc = rf::Loc { path: path.iter().map(name).collect(), name: name(&nm) };
        fn within<X>(path: &[Nm], f: &mut dyn FnMut() -> X) -> X {
            match path.split_first() {
                None => f(),
                Some((k, rest)) => ns(name(k), || within(rest, f)),
            }
        }
        let kind = t.weighted(&[4, 4, 2, 1]);
        let peek = t.chance(1, 6);
        let body = move |v: T, l: rf::Loc| {
            if peek {
                INSIDE.with(|i| i.borrow_mut().push((rf::dcg_reflect_now().unwrap(), l)))
            }
            v
        };
        let pt = ProgPt { symbol: "p::reflect {\"\\" };
        let (a, h, loc) = match kind {
            0 => (within(&path, &mut || cell(name(&nm), v.clone())), Held::Cell(v.clone()), loc),
            1 => {
                let a = within(&path, &mut || {
                    let l = loc.clone();
                    thunk(NameChoice::Nominal(name(&nm)), pt.clone(), Rc::new(Box::new(move |v: T, ()| body(v, l.clone()))), v.clone(), ())
                });
                let d = t.chance(2, 3);
                if d {
                    ensure!(force(&a) == v, "a thunk yields another value");
                }
                (a, Held::Thunk(v.clone(), d), loc)
            }
            2 => {
                // At a location named by a hash that only the graph tells.
                let before = rf::dcg_reflect_now().unwrap();
                let cell_kind = t.chance(1, 2);
                let a = within(&path, &mut || {
                    if cell_kind {
                        structural(|| cell(name(&nm), v.clone()))
                    } else {
                        let i = i as i64;
                        thunk(NameChoice::Structural, pt.clone(), Rc::new(Box::new(|(_, v): (i64, T), ()| v)), (i, v.clone()), ())
                    }
                });
                let after = rf::dcg_reflect_now().unwrap();
                let new: Vec<rf::Loc> = after.table.keys().filter(|l| !before.table.contains_key(l)).cloned().collect();
                if new.is_empty() && cell_kind {
                    continue; // Equal content, held before.
                }
                ensure!(new.len() == 1, "allocating one articulation added {} to the reflected graph", new.len());
                ensure!(new[0].path == loc.path, "allocated in {:?}, reflected in {:?}", loc.path, new[0].path);
                force(&a);
                (a, if cell_kind { Held::Cell(v.clone()) } else { Held::Thunk(v.clone(), true) }, new[0].clone())
            }
            _ => {
                // Unnamed: prints as its content.
                let a = put(v.clone());
                let w = T::St("Art", vec![("art", v.clone())]);
                if ok(&w) {
                    ensure!(norm(&parse_val(&a)) == norm(&expect(&w)), "{:?} reflects as {:?}", a, parse_val(&a));
                }
                continue;
            }
        };
        let ao = ArtOf(a, loc.clone(), kind == 2);
        ensure!(parse_val(&ao.0) == Val::Art(loc.clone(), ArtContent::Unknown), "articulation {:?} reflects as {:?} instead of {:?}", ao.0, parse_val(&ao.0), loc);
        cx.label_if(kind == 2, "structural locations");
        held.push((loc, h));
        arts.push(ao);
    }
    let traces = if recording { rf::dcg_reflect_end() } else { vec![] };
    let check = |d: &rf::DCG, all: bool| -> R {
        for (l, nd) in d.table.iter() {
            let h = match held.iter().find(|h| h.0 == *l) {
                Some(h) => &h.1,
                None => return Err(format!("the reflected graph has an articulation at {}, where nothing was allocated", rf::string_of_loc(l))),
            };
            let what = || format!("the content at {}", rf::string_of_loc(l));
            match (nd, h) {
                (rf::Node::Ref(r), Held::Cell(v)) => same(&what, &r.value, v)?,
                (rf::Node::Pure(r), Held::Cell(v)) => same(&what, &r.value, v)?,
                (rf::Node::Comp(n), Held::Thunk(v, d)) => {
                    ensure!(n.prog_pt.symbol == "p::reflect {\"\\", "{} has program point {:?}", what(), n.prog_pt);
                    if all {
                        ensure!(n.value.is_some() == *d, "{}: reflected as evaluated: {}, demanded: {}", what(), n.value.is_some(), d);
                    }
                    if let Some(x) = &n.value {
                        same(&what, x, v)?
                    }
                }
                _ => return Err(format!("{} is reflected as the wrong kind: {:?}", what(), nd)),
            }
        }
        if all {
            ensure!(d.table.len() == held.len(), "the reflected graph has {} articulations instead of {}", d.table.len(), held.len());
            ensure!(d.stack.is_empty() && d.path.is_empty(), "a quiescent graph is reflected with frames or namespace open");
        }
        // Printing any of it succeeds.
        let mut s = format!("{:?}", d);
        for l in d.table.keys() {
            s.push_str(&rf::string_of_loc(l));
            s.push_str(&rf::string_of_path(&l.path));
            s.push_str(&rf::string_of_name(&l.name));
        }
        Ok(())
    };
    check(&rf::dcg_reflect_now().unwrap(), true)?;
    INSIDE.with(|i| -> R {
        for (d, l) in i.borrow().iter() {
            cx.label("reflected from within a computation");
            check(d, false)?;
            let top = d.stack.last().map(|f| f.loc.clone());
            ensure!(top.as_ref() == Some(l), "within {}, the stack of the reflected graph ends in {:?}", rf::string_of_loc(l), top.as_ref().map(rf::string_of_loc));
        }
        i.borrow_mut().clear();
        Ok(())
    })?;
    let _ = format!("{:?}", traces);
    // Every reflected articulation leads to what it holds.
    for ArtOf(a, l, _) in &arts {
        let _ = format!("{:?}", a);
        ensure!(held.iter().any(|h| h.0 == *l), "lost");
    }
    manage::init_naive();
    ensure!(rf::dcg_reflect_now().is_none(), "the cache-free engine reflects a graph");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C15",
        a: (20, 400),
        b: (0, 0),
        quick: 300_000,
        thorough: 3_000_000,
        run: c15,
        rule: "Random trees of structs, enum constructors, tuples, lists, strings of awkward characters, extreme integers, names and articulations, up to 100 levels deep, printed as derived Debug would, reflected alone and as the content of articulations at random locations; non-trivial: a value with at least two constructors, strings, names or articulations",
        assumptions: &["values print as #[derive(Debug)] prints them; characters, floats, hash maps and user constructors named like name symbols are out of scope"],
    }]
}
