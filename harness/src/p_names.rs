//! C08: names against a term model.

use crate::engs::name;
use crate::fw::*;
use crate::lang::Nm;
use adapton::engine::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

pub fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

pub const STRS: [&str; 14] = ["", "a", "b", "0", "1", "-1", "ab", "ba", "L", "()", "a.b", "é", "a\"", "\\"];

/// Long strings that differ at one place only (the first, one in the middle, or the last), or in length.
fn long(t: &mut Tape) -> &'static str {
    static LONG: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    let all = LONG.get_or_init(|| {
        let mut v: Vec<&'static str> = vec![];
        for len in [7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1024] {
            for at in [len, 0, len / 2, len - 1] {
                let s: String = (0..len).map(|i| if i == at { 'y' } else { 'x' }).collect();
                v.push(Box::leak(s.into_boxed_str()))
            }
        }
        v
    });
    // Mostly of one length, so that strings meet others that are close to them.
    match t.below(3) {
        0 => all[t.below(4)],
        1 => all[40 + t.below(4)],
        _ => all[t.below(all.len())],
    }
}

fn l(n: &Nm) -> Nm {
    Nm::L(Rc::new(n.clone()))
}
fn r(n: &Nm) -> Nm {
    Nm::R(Rc::new(n.clone()))
}
fn p(a: &Nm, b: &Nm) -> Nm {
    Nm::P(Rc::new(a.clone()), Rc::new(b.clone()))
}
fn depth(n: &Nm) -> usize {
    match n {
        Nm::P(a, b) => 1 + depth(a).max(depth(b)),
        Nm::L(a) | Nm::R(a) => 1 + depth(a),
        _ => 0,
    }
}
fn count_forks(n: &Nm) -> usize {
    match n {
        Nm::P(a, b) => count_forks(a) + count_forks(b),
        Nm::L(a) | Nm::R(a) => 1 + count_forks(a),
        _ => 0,
    }
}

fn leaf(t: &mut Tape) -> (Nm, Name) {
    match t.weighted(&[4, 4, 4, 1, 4, 2, 2]) {
        5 => {
            let s = long(t);
            (Nm::S(s.into()), name_of_str(s))
        }
        6 => {
            let s = long(t);
            (Nm::S(s.into()), name_of_string(s.into()))
        }
        0 => {
            let s = STRS[t.below(STRS.len())];
            (Nm::S(s.into()), name_of_str(s))
        }
        1 => {
            let s = STRS[t.below(STRS.len())];
            (Nm::S(s.into()), name_of_string(s.into()))
        }
        2 => {
            let u = match t.below(8) {
                0..=4 => t.below(4),
                5 => t.raw() as usize,
                6 => usize::MAX - t.below(3),
                _ => 1 << t.below(64),
            };
            (Nm::U(u), name_of_usize(u))
        }
        3 => (Nm::Unit, name_unit()),
        _ => {
            let i = match t.below(8) {
                0..=4 => t.small(3) as isize,
                5 => isize::MIN + t.below(3) as isize,
                6 => isize::MAX - t.below(3) as isize,
                _ => (1i64 << t.below(63)) as isize,
            };
            (Nm::I(i), name_of_isize(i))
        }
    }
}

fn c08(c: &Case, cx: &mut Cx) -> R {
    let mut t = Tape::new(&c.a);
    let mut pool: Vec<(Nm, Name)> = vec![];
    let n = 3 + t.below(14);
    while pool.len() < n {
        let k = pool.len();
        let (m, x) = if k == 0 { leaf(&mut t) } else { pool[t.below(k)].clone() };
        match t.weighted(&[4, 3, 3, 3, 1, 2, 2, 1]) {
            0 => pool.push(leaf(&mut t)),
            1 => {
                let (m2, x2) = if k == 0 { leaf(&mut t) } else { pool[t.below(k)].clone() };
                pool.push((p(&m, &m2), name_pair(x, x2)))
            }
            2 => {
                let (a, b) = name_fork(x);
                pool.push((l(&m), a));
                pool.push((r(&m), b));
            }
            3 => {
                let (a, b, d) = name_fork3(x);
                pool.push((l(&m), a));
                pool.push((l(&r(&m)), b));
                pool.push((r(&r(&m)), d));
            }
            4 => {
                let (a, b, d, e) = name_fork4(x);
                pool.push((l(&m), a));
                pool.push((l(&r(&m)), b));
                pool.push((l(&r(&r(&m))), d));
                pool.push((r(&r(&r(&m))), e));
            }
            5 => {
                // A long chain of forks.
                let (mut m, mut x) = (m, x);
                for _ in 0..t.below(40) {
                    let (a, b) = name_fork(x);
                    if t.chance(1, 2) {
                        x = b;
                        m = r(&m);
                    } else {
                        x = a;
                        m = l(&m);
                    }
                }
                pool.push((m, x))
            }
            6 => {
                // A term equal or close to another, built again.
                let m2 = match &m {
                    Nm::P(a, b) => match t.below(5) {
                        0 => p(a, b),
                        1 => p(b, a),
                        2 => match &**b {
                            Nm::P(b, c) => p(&p(a, b), c),
                            _ => p(a, &p(b, &Nm::Unit)),
                        },
                        3 => l(a),
                        _ => p(&l(a), &r(b)),
                    },
                    Nm::L(a) => match t.below(4) {
                        0 => l(a),
                        1 => r(a),
                        2 => p(a, a),
                        _ => (**a).clone(),
                    },
                    Nm::R(a) => match t.below(4) {
                        0 => r(a),
                        1 => l(a),
                        2 => l(&r(a)),
                        _ => r(&l(a)),
                    },
                    Nm::S(s) => match t.below(9) {
                        3 => Nm::S(s.to_uppercase()),
                        4 => Nm::S(format!("{} ", s)),
                        5 => Nm::S(format!(" {}", s)),
                        6 => Nm::S(s.chars().rev().collect()),
                        7 => Nm::S(format!("{}{}", s, ["\0", "\n", "\u{301}", "x", "0"][t.below(5)])),
                        8 => Nm::S(s.repeat(2)),
                        0 => s.parse().map(Nm::U).unwrap_or(Nm::Unit),
                        1 => s.parse().map(Nm::I).unwrap_or(m.clone()),
                        _ => m.clone(),
                    },
                    Nm::U(u) => [Nm::S(u.to_string()), Nm::I(*u as isize), Nm::U(*u)][t.below(3)].clone(),
                    Nm::I(i) => [Nm::S(i.to_string()), Nm::U(*i as usize), Nm::I(*i)][t.below(3)].clone(),
                    Nm::Unit => [Nm::S("()".into()), Nm::S("".into()), Nm::Unit, Nm::U(0)][t.below(4)].clone(),
                };
                let x2 = name(&m2);
                pool.push((m2, x2))
            }
            _ => pool.push((m.clone(), x.clone())),
        }
    }
    cx.show(|| format!("{:?}", pool.iter().map(|x| &x.0).collect::<Vec<_>>()));
    for (m, _) in &pool {
        cx.digest(m)
    }
    // Twice the same, now by each term on its own.
    let again: Vec<Name> = pool.iter().map(|x| name(&x.0)).collect();
    let (mut same, mut diff) = (0, 0);
    for (i, (m, x)) in pool.iter().enumerate() {
        ensure!(*x == again[i] && again[i] == *x && h(x) == h(&again[i]), "name {:?}, built again, is not equal or hashes otherwise", m);
        ensure!(format!("{:?}", x) == format!("{:?}", again[i]), "name {:?} prints in two ways", m);
        ensure!(*x == x.clone() && h(x) == h(&x.clone()), "name {:?} differs from its clone", m);
        for (j, (m2, x2)) in pool.iter().enumerate() {
            ensure!((x == x2) == (m == m2), "names {:?} and {:?} compare as equal: {}", m, m2, x == x2);
            ensure!((*x == again[j]) == (m == m2), "names {:?} and {:?} compare as equal: {}", m, m2, *x == again[j]);
            ensure!((x != x2) == (m != m2), "names {:?} and {:?}: != is wrong", m, m2);
            if m == m2 {
                ensure!(h(x) == h(x2), "equal names {:?} hash differently", m);
                same += (i != j) as u32;
            } else {
                diff += 1;
            }
        }
    }
    // Different names identify different articulations.
    manage::init_dcg();
    let thunks = t.chance(1, 2);
    let mut arts: Vec<(Nm, i64, Art<i64>)> = vec![];
    for (k, (m, x)) in pool.iter().enumerate() {
        let k = arts.iter().find(|a| a.0 == *m).map_or(k as i64, |a| a.1);
        let a = if thunks {
            thunk(
                NameChoice::Nominal(x.clone()),
                adapton::macros::ProgPt { symbol: "c08" },
                Rc::new(Box::new(|k: i64, _: ()| k + 5)),
                k,
                (),
            )
        } else {
            cell(x.clone(), k + 5)
        };
        arts.push((m.clone(), k, a))
    }
    for (m, k, a) in &arts {
        ensure!(force(a) == k + 5, "articulation named {:?} yields {} instead of {}", m, force(a), k + 5);
        for (m2, _, a2) in &arts {
            ensure!((a == a2) == (m == m2), "articulations named {:?} and {:?} compare as equal: {}", m, m2, a == a2)
        }
    }
    let mut terms: Vec<&Nm> = pool.iter().map(|x| &x.0).collect();
    terms.sort();
    terms.dedup();
    let d = adapton::reflect::dcg_reflect_now().unwrap();
    ensure!(d.table.len() == terms.len(), "{} names identify {} articulations", terms.len(), d.table.len());
    cx.label_if(same > 0, "equal names built twice");
    cx.label_if(terms.iter().any(|m| depth(m) > 8), "deep names");
    cx.label_if(terms.iter().any(|m| matches!(m, Nm::S(s) if s.len() > 30)), "long strings");
    cx.label_if(terms.iter().any(|m| count_forks(m) > 0), "forks");
    cx.label_if(terms.iter().any(|m| matches!(m, Nm::P(..))), "pairs");
    cx.nontrivial = same > 0 && diff > 10;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C08",
        a: (10, 160),
        b: (0, 0),
        quick: 200_000,
        thorough: 3_000_000,
        run: c08,
        rule: "A pool of 3 to 20 names built by every constructor from shared parts, including near misses (swapped, re-associated, other branch, number against string, long strings that differ at one place); non-trivial: two members of the pool are equal by construction and at least five pairs are different",
        assumptions: &["names from raw hash values (name_of_hash64) are out of scope: the API says not to call it"],
    }]
}
