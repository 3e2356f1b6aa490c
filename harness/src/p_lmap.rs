//! C22: finite maps and sets over lists.

use crate::fw::*;
use crate::p_list::*;
use adapton::catalog::collections::*;
use adapton::engine::*;
use adapton::macros::ProgPt;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

type M<K, V> = List<(K, V)>;
/// The bindings, oldest first.
type B<K, V> = Vec<(K, V)>;

fn step_map<K: El, V: El>(t: &mut Tape, id: Name, m: M<K, V>, b: &mut B<K, V>, said: &mut Vec<String>) -> M<K, V> {
    match t.weighted(&[5, 1, 2]) {
        0 => {
            let (k, v) = (K::of(t.small(4)), V::of(t.small(3)));
            said.push(format!("{:?}={:?}", k, v));
            b.push((k.clone(), v.clone()));
            if t.chance(1, 2) {
                map_update(m, k, v)
            } else {
                <M<K, V> as MapIntro<K, V>>::update(m, k, v)
            }
        }
        1 => {
            said.push(format!("name {:?}", id));
            List::name(id, m)
        }
        _ => {
            let (a, k) = art_of(t, id, m);
            said.push(k.to_string());
            List::art(a)
        }
    }
}

fn queries<K: El, V: El>(what: &str, m: &M<K, V>, b: &B<K, V>) -> R {
    let model: BTreeMap<K, V> = b.iter().cloned().collect();
    for i in -5..6 {
        let k = K::of(i);
        let want = model.get(&k).cloned();
        let got: Option<V> = map_find(m, &k);
        ensure!(got == want, "{}: {:?} is bound to {:?} instead of {:?} in {:?}", what, k, got, want, b);
        let got: Option<V> = <M<K, V> as MapElim<K, V>>::find(m, &k);
        ensure!(got == want, "{}: {:?} is bound to {:?} instead of {:?} in {:?}", what, k, got, want, b);
    }
    let got: B<K, V> = map_fold(m.clone(), vec![], Rc::new(|k: K, v: V, mut r: B<K, V>| { r.push((k, v)); r }));
    ensure!(got == *b, "{}: folding visits {:?} instead of {:?}", what, got, b);
    let again: M<K, V> = map_fold(m.clone(), map_empty(), Rc::new(|k: K, v: V, r: M<K, V>| map_update(r, k, v)));
    for i in -5..6 {
        let k = K::of(i);
        let got: Option<V> = map_find(&again, &k);
        ensure!(got == model.get(&k).cloned(), "{}: rebuilt, {:?} is bound to {:?}", what, k, got);
    }
    Ok(())
}

type S<K> = List<(K, ())>;
fn set_queries<K: El>(what: &str, s: &S<K>, b: &B<K, ()>) -> R {
    let model: BTreeSet<K> = b.iter().map(|p| p.0.clone()).collect();
    for i in -5..6 {
        let k = K::of(i);
        ensure!(<S<K> as SetElim<K>>::is_mem(s, &k) == model.contains(&k), "{}: membership of {:?} in {:?}", what, k, b);
    }
    let got: Vec<K> = <S<K> as SetElim<K>>::fold(s.clone(), vec![], |k: K, mut r: Vec<K>| { r.push(k); r });
    let want: Vec<K> = b.iter().map(|p| p.0.clone()).collect();
    ensure!(got == want, "{}: folding visits {:?} instead of {:?}", what, got, want);
    Ok(())
}

fn c22_for<K: El, V: El>(c: &Case, t: &mut Tape, cx: &mut Cx) -> R {
    let naive = t.chance(1, 3);
    if naive {
        manage::init_naive();
        cx.label("cache-free");
    } else {
        manage::init_dcg();
    }
    let sets = t.chance(1, 2);
    let mut interesting = false;
    let mut k0 = 0;
    let mut id = || {
        k0 += 1;
        nm(k0)
    };
    if sets {
        let mut pool: Vec<(S<K>, B<K, ()>)> = vec![(<S<K> as SetIntro<K>>::empty(), vec![])];
        for (step, op) in c.b.iter().enumerate() {
            let more = crate::p_map::more(op);
            let mut t = Tape::new(&more);
            let k = t.below(6);
            let i = t.below(pool.len());
            let (s, mut b) = pool[i].clone();
            let what = format!("step {}: operation {} on {:?}", step, k, b);
            cx.digest(&op);
            let new = match k {
                0 | 1 | 2 => {
                    let x = K::of(t.small(4));
                    b.push((x.clone(), ()));
                    cx.show(|| format!("#{} = add {:?} to #{}", pool.len(), x, i));
                    <S<K> as SetIntro<K>>::add(s, x)
                }
                3 | 4 => {
                    let mut said = vec![];
                    let new = step_map(&mut t, id(), s, &mut b, &mut said);
                    cx.show(|| format!("#{} = {:?} on #{}", pool.len(), said, i));
                    new
                }
                _ => {
                    let j = t.below(pool.len());
                    let (s2, b2) = pool[j].clone();
                    cx.show(|| format!("#{} = intersection of #{} and #{}", pool.len(), i, j));
                    interesting |= !b.is_empty() && !b2.is_empty();
                    let other: BTreeSet<K> = b2.into_iter().map(|p| p.0).collect();
                    b.retain(|p| other.contains(&p.0));
                    let got = <S<K> as SetIntro<K>>::inter(s, s2);
                    // Duplicates may come or go.
                    let mut seen: Vec<K> = <S<K> as SetElim<K>>::fold(got.clone(), vec![], |k: K, mut r: Vec<K>| { r.push(k); r });
                    let folded: B<K, ()> = seen.iter().map(|k| (k.clone(), ())).collect();
                    seen.sort();
                    seen.dedup();
                    let mut want: Vec<K> = b.iter().map(|p| p.0.clone()).collect();
                    want.sort();
                    want.dedup();
                    ensure!(seen == want, "{}: intersection with {:?} holds {:?}", what, pool[j].1, seen);
                    b = folded;
                    cx.label("intersection");
                    got
                }
            };
            set_queries(&what, &new, &b)?;
            pool.push((new, b));
        }
        for (i, (s, b)) in pool.iter().enumerate() {
            set_queries(&format!("at the end, #{}", i), s, b)?
        }
        cx.label("sets");
        cx.nontrivial = interesting;
        return Ok(());
    }
    // A map from which cells can be replaced by others.
    let mut said = vec![];
    let mut b = vec![];
    let mut m: M<K, V> = map_empty();
    let mut base_len = None;
    let big = t.big(60);
    cx.label_if(big, "many bindings");
    for _ in 0..t.below(if big { 150 } else { 8 }) {
        m = step_map(t, id(), m, &mut b, &mut said)
    }
    let base = if naive { None } else { Some(cell(name_of_str("base"), m.clone())) };
    if let Some(a) = &base {
        base_len = Some(b.len());
        m = List::art(a.clone());
        said.push("cell base".into());
        for _ in 0..t.below(if big { 150 } else { 6 }) {
            m = step_map(t, id(), m, &mut b, &mut said)
        }
    }
    cx.show(|| said.join(", "));
    cx.digest(&said);
    queries("at first", &m, &b)?;
    // Look-ups by computations.
    let asked = |i: i64, m: &M<K, V>| -> Art<Option<V>> {
        thunk(
            NameChoice::Nominal(name_pair(name_of_str("ask"), name_of_isize(i as isize))),
            ProgPt { symbol: "ask" },
            Rc::new(Box::new(|(k, m): (K, M<K, V>), ()| map_find(&m, &k))),
            (K::of(i), m.clone()),
            (),
        )
    };
    let asks: Vec<(i64, Art<Option<V>>)> = (-4..5).map(|i| (i, asked(i, &m))).collect();
    let mut edits = 0;
    for (step, op) in c.b.iter().enumerate() {
        let more = crate::p_map::more(op);
        let mut t = Tape::new(&more);
        let what = format!("step {}", step);
        if let (Some(a), Some(n)) = (&base, base_len) {
            // Replace the older bindings.
            let mut said = vec![];
            let mut old: M<K, V> = map_empty();
            let mut ob = vec![];
            for _ in 0..t.below(5) {
                old = step_map(&mut t, id(), old, &mut ob, &mut said)
            }
            cx.show(|| format!("base becomes {:?}", said));
            cx.digest(&said);
            set(a, old);
            let newer = b[n..].to_vec();
            base_len = Some(ob.len());
            ob.extend(newer);
            edits += (ob != b) as u32;
            b = ob;
        }
        queries(&what, &m, &b)?;
        let model: BTreeMap<K, V> = b.iter().cloned().collect();
        for (i, a) in &asks {
            if t.chance(2, 3) {
                let (got, want) = (force(a), model.get(&K::of(*i)).cloned());
                ensure!(got == want, "{}: the computation finds {:?} bound to {:?} instead of {:?} in {:?}", what, i, got, want, b);
            }
        }
    }
    cx.label("maps");
    cx.label_if(edits > 0, "older bindings replaced");
    let keys: BTreeSet<&K> = b.iter().map(|p| &p.0).collect();
    cx.label_if(keys.len() < b.len(), "overwritten keys");
    cx.nontrivial = edits > 0 || keys.len() < b.len();
    Ok(())
}

fn c22(c: &Case, cx: &mut Cx) -> R {
    let mut t = Tape::new(&c.a);
    match t.below(3) {
        0 => c22_for::<i64, i64>(c, &mut t, cx),
        1 => c22_for::<String, i64>(c, &mut t, cx),
        _ => c22_for::<(bool, Option<Box<i64>>), String>(c, &mut t, cx),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        a: (4, 60),
        b: (1, 14),
        quick: 250_000,
        thorough: 5_000_000,
        run: c22,
        rule: "Sets built by adding and intersecting, and maps built by updates with overwritten keys, with names and seven kinds of articulations in between, three key types, either engine; look-ups directly and by computations while the older bindings, held by a cell, are replaced; non-trivial: an intersection of two non-empty sets, overwritten keys, or a replacement that changed bindings",
        assumptions: &["removal, union and difference are unimplemented in the library"],
    }]
}
