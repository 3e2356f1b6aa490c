//! C03: one name, allocated by several computations that exclude each
//! other: whichever runs for the current inputs owns the articulation.

use crate::fw::*;
use adapton::engine::*;
use adapton::macros::*;
use std::fmt::{self, Debug};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Content {
    Const(i64),
    Input(usize, i64),
}
#[derive(Clone, Debug, Hash)]
struct Alloc {
    guard: usize,
    rank: i64,
    /// Which of the names that belong to this guard.
    name: usize,
    thunk: bool,
    content: Content,
    /// Allocate by an inner computation; observe it oneself, too.
    inner: bool,
    looks: bool,
    /// Otherwise: allocate elsewhere.
    own: bool,
}
#[derive(Clone, Debug, Hash)]
struct User {
    alloc: usize,
    also: Option<usize>,
    proj: Option<i64>,
}
struct Env {
    guards: Vec<Art<i64>>,
    inputs: Vec<Art<i64>>,
    allocs: Vec<Alloc>,
    users: Vec<User>,
    arts: std::cell::RefCell<Vec<Art<Art<i64>>>>,
}
type S = Rc<Env>;
impl Debug for Env {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?} {:?}", self.allocs, self.users)
    }
}

fn content(e: &Env, c: Content) -> i64 {
    match c {
        Content::Const(k) => k,
        Content::Input(i, k) => force(&e.inputs[i]) + k,
    }
}
fn body(arg: (i64, i64), e: S) -> i64 {
    match arg {
        (0, k) => k,
        (j, k) => force(&e.inputs[(j - 1) as usize]) + k,
    }
}
fn nom(t: &'static str, i: usize) -> Name {
    name_pair(name_of_str(t), name_of_usize(i))
}
fn alloc_here(a: usize, e: &S, n: Name) -> Art<i64> {
    let d = &e.allocs[a];
    if d.thunk {
        let arg = match d.content {
            Content::Const(k) => (0, k),
            Content::Input(i, k) => (i as i64 + 1, k),
        };
        thunk(NameChoice::Nominal(n), prog_pt!("body"), Rc::new(Box::new(body)), arg, e.clone())
    } else {
        cell(n, content(e, d.content))
    }
}
fn alloc(a: usize, e: S) -> Art<i64> {
    let d = e.allocs[a].clone();
    let mine = force(&e.guards[d.guard]) == d.rank;
    let n = if mine {
        nom("shared", 2 * d.guard + d.name)
    } else if d.own {
        nom("own", a)
    } else {
        return e.inputs[0].clone();
    };
    let art = if d.inner {
        let n2 = n.clone();
        force(&thunk(
            NameChoice::Nominal(name_pair(nom("inner", a), n)),
            prog_pt!("alloc_here"),
            Rc::new(Box::new(move |(a, n): (usize, Name), e: S| alloc_here(a, &e, n))),
            (a, n2),
            e.clone(),
        ))
    } else {
        alloc_here(a, &e, n)
    };
    if d.looks {
        force(&art);
    }
    art
}
fn user(u: usize, e: S) -> i64 {
    let d = &e.users[u];
    let arts = e.arts.borrow().clone();
    let one = |a: usize| {
        let art = force(&arts[a]);
        match d.proj {
            None => force(&art),
            Some(k) => {
                // Arts of other projections of this cell are distinguished by it.
                if k == 2 { force_map(&art, |_, v: i64| v.rem_euclid(2)) } else { force_map(&art, |_, v: i64| v.rem_euclid(3)) }
            }
        }
    };
    let x = one(d.alloc);
    match d.also {
        Some(b) if x > 0 => 100 * x + one(b),
        _ => x,
    }
}

pub fn shared(t: &mut Tape, c: &Case, cx: &mut Cx) -> R {
    manage::init_dcg();
    let ng = 1 + t.below(2);
    let ni = 1 + t.below(2);
    let nranks = 2 + t.below(2) as i64;
    let na = 2 + t.below(4);
    let nu = 1 + t.below(3);
    let mut taken = vec![];
    let allocs: Vec<Alloc> = (0..na)
        .map(|_| {
            let guard = t.below(ng);
            let name = if t.chance(1, 4) { 1 } else { 0 };
            let mut rank = t.below(nranks as usize) as i64;
            while taken.contains(&(guard, name, rank)) {
                rank += 1
            }
            taken.push((guard, name, rank));
            Alloc {
                guard,
                rank,
                name,
                thunk: t.chance(1, 3),
                content: if t.chance(1, 2) { Content::Input(t.below(ni), t.small(2)) } else { Content::Const(t.small(4)) },
                inner: t.chance(1, 4),
                looks: t.chance(1, 4),
                own: t.chance(1, 2),
            }
        })
        .collect();
    let users: Vec<User> = (0..nu)
        .map(|_| User {
            alloc: t.below(na),
            also: if t.chance(1, 3) { Some(t.below(na)) } else { None },
            proj: if t.chance(1, 3) { Some(2 + t.below(2) as i64) } else { None },
        })
        .collect();
    let mut gv: Vec<i64> = (0..ng).map(|_| t.below(nranks as usize) as i64).collect();
    let mut iv: Vec<i64> = (0..ni).map(|_| t.small(3)).collect();
    let e: S = Rc::new(Env {
        guards: gv.iter().enumerate().map(|(i, v)| cell(nom("guard", i), *v)).collect(),
        inputs: iv.iter().enumerate().map(|(i, v)| cell(nom("input", i), *v)).collect(),
        allocs,
        users,
        arts: Default::default(),
    });
    for a in 0..na {
        let art = thunk(NameChoice::Nominal(nom("alloc", a)), prog_pt!("alloc"), Rc::new(Box::new(alloc)), a, e.clone());
        e.arts.borrow_mut().push(art)
    }
    let us: Vec<Art<i64>> = (0..nu)
        .map(|u| thunk(NameChoice::Nominal(nom("user", u)), prog_pt!("user"), Rc::new(Box::new(user)), u, e.clone()))
        .collect();
    cx.digest(&format!("{:?} {:?} {:?}", e, gv, iv));
    cx.show(|| format!("{:?} guards {:?} inputs {:?}", e, gv, iv));
    cx.label("one name, several owners");
    let mut owners: Vec<Option<usize>> = vec![None; 2 * ng];
    let mut changes = 0;
    for op in &c.b {
        // Sets and demands in equal parts, each demand of one thing only.
        match scale(op[0], 12) {
            0 | 1 | 2 => {
                let u = scale(op[1], nu);
                demand_user(u, &e, &us, &gv, &iv, cx, &mut owners, &mut changes)?
            }
            3 | 4 => {
                let a = scale(op[1], na);
                demand_alloc(a, &e, &gv, &iv, cx, &mut owners, &mut changes)?
            }
            5 | 6 => {
                let g = scale(op[1], ng);
                gv[g] = scale(op[2], nranks as usize + 1) as i64;
                cx.digest(&(g, gv[g]));
                cx.show(|| format!("guard {} := {}", g, gv[g]));
                set(&e.guards[g], gv[g])
            }
            7 | 8 | 9 | 10 => {
                // Lets another own the name, and looks only at it.
                let a = scale(op[1], na);
                let (g, k) = (e.allocs[a].guard, e.allocs[a].rank);
                gv[g] = k;
                cx.digest(&(g, k));
                cx.show(|| format!("guard {} := {}", g, k));
                set(&e.guards[g], k);
                let us_of: Vec<usize> = (0..nu).filter(|u| e.users[*u].alloc == a).collect();
                if us_of.is_empty() || scale(op[2], 2) == 0 {
                    demand_alloc(a, &e, &gv, &iv, cx, &mut owners, &mut changes)?
                } else {
                    let u = us_of[scale(op[3], us_of.len())];
                    demand_user(u, &e, &us, &gv, &iv, cx, &mut owners, &mut changes)?
                }
            }
            _ => {
                let i = scale(op[1], ni);
                iv[i] = zigzag(scale(op[2], 9));
                cx.digest(&(i, iv[i]));
                cx.show(|| format!("input {} := {}", i, iv[i]));
                set(&e.inputs[i], iv[i])
            }
        }
    }
    for u in 0..nu {
        demand_user(u, &e, &us, &gv, &iv, cx, &mut owners, &mut changes)?
    }
    for a in 0..na {
        demand_alloc(a, &e, &gv, &iv, cx, &mut owners, &mut changes)?
    }
    for u in 0..nu {
        demand_user(u, &e, &us, &gv, &iv, cx, &mut owners, &mut changes)?
    }
    cx.label_if(changes > 1, "a name changed owners");
    cx.nontrivial = changes > 0;
    Ok(())
}

fn want_alloc(a: usize, e: &Env, gv: &[i64], iv: &[i64]) -> i64 {
    let d = &e.allocs[a];
    if gv[d.guard] == d.rank || d.own {
        match d.content {
            Content::Const(k) => k,
            Content::Input(i, k) => iv[i] + k,
        }
    } else {
        iv[0]
    }
}
fn own(a: usize, e: &Env, gv: &[i64], owners: &mut [Option<usize>], changes: &mut u32) {
    let d = &e.allocs[a];
    if gv[d.guard] == d.rank {
        let o = &mut owners[2 * d.guard + d.name];
        if o.map_or(false, |o| o != a) {
            *changes += 1
        }
        *o = Some(a)
    }
}
fn demand_alloc(a: usize, e: &S, gv: &[i64], iv: &[i64], cx: &mut Cx, owners: &mut [Option<usize>], changes: &mut u32) -> R {
    cx.digest(&("alloc", a));
    cx.show(|| format!("demand alloc {}", a));
    own(a, e, gv, owners, changes);
    let art = e.arts.borrow()[a].clone();
    let art = force(&art);
    let v = force(&art);
    let w = want_alloc(a, e, gv, iv);
    ensure!(v == w, "the articulation {:?} of allocator {} holds {}, not {}", art, a, v, w);
    Ok(())
}
fn demand_user(u: usize, e: &S, us: &[Art<i64>], gv: &[i64], iv: &[i64], cx: &mut Cx, owners: &mut [Option<usize>], changes: &mut u32) -> R {
    cx.digest(&("user", u));
    cx.show(|| format!("demand user {}", u));
    let d = &e.users[u];
    let mut one = |a: usize| {
        own(a, e, gv, owners, changes);
        let v = want_alloc(a, e, gv, iv);
        d.proj.map_or(v, |k| v.rem_euclid(k))
    };
    let x = one(d.alloc);
    let w = match d.also {
        Some(b) if x > 0 => 100 * x + one(b),
        _ => x,
    };
    let v = force(&us[u]);
    ensure!(v == w, "user {} yields {}, not {}", u, v, w);
    Ok(())
}
